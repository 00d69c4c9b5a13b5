! Interpreter for annotation programs in Fortran: reads a file of operations, one field per line.
program vfort
    use iso_c_binding
    use caliper_mod
    implicit none
    type annp
        type(annotation) :: a
    end type
    type(annotation) :: anns(0:15)
    type(scopeannotation) :: scopes(0:63)
    type(configmanager) :: mgrs(0:3)
    type(bufferedregionprofile) :: rps(0:3)
    integer(cali_id_t) :: attrs(0:63), loops(0:15), id
    character(len=4096) :: op, a, b, c
    integer :: ios, k, n, i
    integer(c_int) :: iv
    real(c_double) :: dv
    character(len=:), allocatable :: msg
    logical :: lb

    call get_command_argument(1, a)
    open(unit=20, file=trim(a), status='old', action='read')
    call get_command_argument(2, a)
    open(unit=21, file=trim(a), status='replace', action='write', recl=20000)
    n = 0
    do
        read(20, '(A)', iostat=ios) op
        if (ios /= 0) exit
        n = n + 1
        select case (trim(op))
        case ('preset')
            call rd(a); call rd(b); call cali_config_preset(a, b)
        case ('cfgset')
            call rd(a); call rd(b); call cali_config_set(a, b)
        case ('init')
            call cali_init()
        case ('attr')
            k = ri(); call rd(a); iv = ri(); i = ri(); attrs(k) = cali_create_attribute(a, iv, i)
        case ('find')
            k = ri(); call rd(a); id = cali_find_attribute(a)
            if (k >= 0) attrs(k) = id
            if (id == -1_cali_id_t) then
                write(21, '(I0,A)') n, ' none'
            else
                write(21, '(I0,A)') n, ' found'
            end if
        case ('bi')
            k = ri(); iv = ri(); call cali_begin_int(attrs(k), iv)
        case ('bs')
            k = ri(); call rd(a); call cali_begin_string(attrs(k), a)
        case ('e')
            k = ri(); call cali_end(attrs(k))
        case ('nbi')
            call rd(a); iv = ri(); call cali_begin_int_byname(a, iv)
        case ('nbs')
            call rd(a); call rd(b); call cali_begin_string_byname(a, b)
        case ('ne')
            call rd(a); call cali_end_byname(a)
        case ('rb')
            call rd(a); call cali_begin_region(a)
        case ('re')
            call rd(a); call cali_end_region(a)
        case ('pb')
            call rd(a); call cali_begin_phase(a)
        case ('pe')
            call rd(a); call cali_end_phase(a)
        case ('li')
            k = ri(); call rd(a); loops(k) = cali_make_loop_iteration_attribute(a)
        case ('lb')
            k = ri(); iv = ri(); call cali_begin_int(loops(k), iv)
        case ('le')
            k = ri(); call cali_end(loops(k))
        case ('gi')
            call rd(a); iv = ri(); call cali_set_global_int_byname(a, iv)
        case ('gs')
            call rd(a); call rd(b); call cali_set_global_string_byname(a, b)
        case ('gd')
            call rd(a); call rd(b); read(b, *) dv; call cali_set_global_double_byname(a, dv)
        case ('an')
            k = ri(); call rd(a); anns(k) = annotation(a)
        case ('anp')
            k = ri(); call rd(a); iv = ri(); anns(k) = annotation(a, iv)
        case ('anb')
            k = ri(); iv = ri(); call anns(k)%begin(iv)
        case ('anbs')
            k = ri(); call rd(a); call anns(k)%begin(a)
        case ('ans')
            k = ri(); iv = ri(); call anns(k)%set(iv)
        case ('anss')
            k = ri(); call rd(a); call anns(k)%set(a)
        case ('ane')
            k = ri(); call anns(k)%end()
        case ('and')
            k = ri(); call anns(k)%delete()
            if (anns(k)%associated()) write(21, '(I0,A)') n, ' associated'
        case ('sc')
            k = ri(); call rd(a); scopes(k) = scopeannotation(a)
        case ('sce')
            k = ri(); call scopes(k)%end()
            if (scopes(k)%associated()) write(21, '(I0,A)') n, ' associated'
        case ('mnew')
            k = ri(); mgrs(k) = configmanager()
        case ('mdel')
            k = ri(); call mgrs(k)%delete()
        case ('madd')
            k = ri(); call rd(a); call mgrs(k)%add(a)
        case ('mspec')
            k = ri(); call rd(a); call mgrs(k)%add_config_spec(a)
        case ('mospec')
            k = ri(); call rd(a); call mgrs(k)%add_option_spec(a)
        case ('mdflt')
            k = ri(); call rd(a); call rd(b); call mgrs(k)%set_default_parameter(a, b)
        case ('mdfltc')
            k = ri(); call rd(a); call rd(b); call rd(c); call mgrs(k)%set_default_parameter_for_config(a, b, c)
        case ('merr')
            k = ri(); lb = mgrs(k)%error(); msg = mgrs(k)%error_msg()
            if (lb) then
                write(21, '(I0,A,A)') n, ' E ', msg
            else
                write(21, '(I0,A,A)') n, ' - ', msg
            end if
        case ('mstart')
            k = ri(); call mgrs(k)%start()
        case ('mstop')
            k = ri(); call mgrs(k)%stop()
        case ('mflush')
            k = ri(); call mgrs(k)%flush()
        case ('flush')
            iv = ri(); call cali_flush(iv)
        case ('rpnew')
            k = ri(); rps(k) = bufferedregionprofile()
        case ('rpdel')
            k = ri(); call rps(k)%delete()
        case ('rpstart')
            k = ri(); call rps(k)%start()
        case ('rpstop')
            k = ri(); call rps(k)%stop()
        case ('rpclear')
            k = ri(); call rps(k)%clear()
        case ('rpex')
            k = ri(); call rps(k)%fetch_exclusive_region_times()
        case ('rpin')
            k = ri(); call rps(k)%fetch_inclusive_region_times()
        case ('rptot')
            k = ri(); write(21, '(I0,A,ES25.17E3,A,ES25.17E3)') n, ' ', &
                rps(k)%total_profiling_time(), ' ', rps(k)%total_region_time()
        case ('rpt')
            k = ri(); call rd(a); write(21, '(I0,A,ES25.17E3)') n, ' ', rps(k)%region_time(a)
        case ('busy')
            k = ri(); call busy(k)
        case default
            write(21, '(A,A)') 'BAD ', trim(op)
            stop 3
        end select
    end do
    write(21, '(A)') 'DONE'
    close(21)
contains
    subroutine rd(s)
        character(len=*), intent(out) :: s
        read(20, '(A)') s
    end subroutine
    integer function ri()
        read(20, *) ri
    end function
    subroutine busy(us)
        integer, intent(in) :: us
        integer(8) :: t0, t1, rate
        call system_clock(t0, rate)
        do
            call system_clock(t1)
            if ((t1 - t0) * 1000000 / rate >= us) exit
        end do
    end subroutine
end program
