"""The Fortran driver of the HDF5 wrapper: a program which carries out a script of calls (made by vf/w_fortran.py) and logs their results."""
import os, subprocess, shutil
from vf import core

TYPES = [("i4", "integer(kind=4)"), ("i8", "integer(kind=8)"), ("r4", "real(kind=4)"), ("r8", "real(kind=8)"), ("ch", "character(len=slen)")]


def source():
    out = []
    w = out.append
    w("""module drv
  use hdf5_wrapper
  use hdf5
  implicit none
  integer, parameter :: us = 11, uo = 12
  integer :: handle(50)
contains
  subroutine gets(s)
    character(len=:), allocatable :: s
    integer(kind=4) :: n
    read(us) n
    if(allocated(s)) deallocate(s)
    allocate(character(len=n) :: s)
    if(n.gt.0) read(us) s
  end subroutine gets
  subroutine geta(a)
    integer, allocatable :: a(:)
    integer(kind=4) :: n
    if(allocated(a)) deallocate(a)
    read(us) n
    if(n.ge.0) then
       allocate(a(n))
       if(n.gt.0) read(us) a
    endif
  end subroutine geta
  subroutine geti(a)
    integer, allocatable :: a
    integer(kind=4) :: n
    if(allocated(a)) deallocate(a)
    read(us) n
    if(n.ne.-999) then
       allocate(a)
       a = n
    endif
  end subroutine geti
  subroutine getl(a)
    logical, allocatable :: a
    integer(kind=4) :: n
    if(allocated(a)) deallocate(a)
    read(us) n
    if(n.ge.0) then
       allocate(a)
       a = (n.ne.0)
    endif
  end subroutine getl
""")
    for t, decl in TYPES:
        for r in range(8):
            nm = "%s_%d" % (t, r)
            arr = decl + (", allocatable :: a(%s)" % ",".join(":" * r) if r else " :: a")
            for op in ("w", "r", "wa", "ra"):
                w("  subroutine %s_%s(ih, name, slen)" % (op, nm))
                w("    integer, intent(in) :: ih, slen\n    character(len=*), intent(in) :: name")
                w("    " + arr)
                if r:
                    w("    integer(kind=4) :: d(%d), b(%d), o(%d), s(%d)" % (r, r, r, r))
                if op in ("w", "r"):
                    w("    integer, allocatable :: st(:), ct(:), is(:), cs(:)\n    integer, allocatable :: gz\n    logical, allocatable :: ov, ex")
                elif op == "wa":
                    w("    logical, allocatable :: ov")
                if r:
                    # dimensions passed, of the array behind, offset and step of the section
                    w("    read(us) d, b, o, s")
                    w("    allocate(a(%s))" % ",".join("b(%d)" % (i + 1) for i in range(r)))
                    w("    if(size(a).gt.0) read(us) a")
                    sec = "a(%s)" % ",".join("o({0}):o({0})+(d({0})-1)*s({0}):s({0})".format(i + 1) for i in range(r))
                    full = "a"
                else:
                    w("    read(us) a")
                    sec = full = "a"
                if op == "w":
                    w("    call geti(gz); call getl(ov); call getl(ex); call geta(st); call geta(ct); call geta(is); call geta(cs)")
                elif op == "r":
                    w("    call geta(st); call geta(ct)")
                elif op == "wa":
                    w("    call getl(ov)")

                def call(x):
                    if op == "w":
                        return "call hdf5_write_data(ih, name, %s, gzip=gz, overwrite=ov, extensible=ex, start=st, count=ct, initial_size=is, chunk_size=cs)" % x
                    if op == "r":
                        return "call hdf5_read_data(ih, name, %s, start=st, count=ct)" % x
                    if op == "wa":
                        return "call hdf5_write_attribute(ih, name, %s, overwrite=ov)" % x
                    return "call hdf5_read_attribute(ih, name, %s)" % x
                if r:
                    w("    if(all(d.eq.b)) then\n       %s\n    else\n       %s\n    endif" % (call("a"), call(sec)))
                else:
                    w("    " + call("a"))
                if op in ("r", "ra"):
                    w("    write(uo) 1")
                    w("    write(uo) a")
                    w("    flush(uo)")
                w("  end subroutine %s_%s" % (op, nm))
    w("end module drv")
    w("""program main
  use drv
  implicit none
  integer(kind=4) :: cmd, h, t, r, slen, n, i, rank, dims(20), sz, ro
  character(len=:), allocatable :: s
  character(len=1000) :: fn
  character(len=20) :: dt
  character(len=64), dimension(200) :: names
  integer(kind=size_t) :: nl
  integer :: err
  logical, allocatable :: rol
  call get_command_argument(1, fn)
  open(us, file=trim(fn), access="stream", form="unformatted", status="old", action="read")
  call get_command_argument(2, fn)
  open(uo, file=trim(fn), access="stream", form="unformatted", status="replace", action="write")
  do
     read(us) cmd
     select case(cmd)
     case(0)
        exit
     case(1)
        read(us) h; call gets(s)
        call hdf5_create_file(handle(h), s)
        write(uo) 1, handle(h)
     case(2)
        read(us) h; call gets(s); call getl(rol)
        call hdf5_open_file(handle(h), s, readonly=rol)
        write(uo) 1, handle(h)
     case(3)
        read(us) h
        call hdf5_close_file(handle(h))
        write(uo) 1
     case(4:7)
        read(us) h; call gets(s); read(us) t, r, slen
        select case(cmd*1000 + t*10 + r)""")
    for ci, op in ((4, "w"), (5, "r"), (6, "wa"), (7, "ra")):
        for ti, (t, _) in enumerate(TYPES):
            for r in range(8):
                w("        case(%d)\n           call %s_%s_%d(handle(h), s, slen)" % (ci * 1000 + ti * 10 + r, op, t, r))
    w("""        end select
        if(cmd.eq.4.or.cmd.eq.6) write(uo) 1
     case(8)
        read(us) h; call gets(s)
        dims = -7
        call hdf5_get_dimensions(handle(h), s, rank, dims)
        write(uo) 1, rank, dims
     case(9)
        read(us) h; call gets(s)
        call hdf5_get_type(handle(h), s, dt, sz)
        write(uo) 1, dt, sz
     case(10)
        read(us) h; call gets(s)
        call hdf5_create_group(handle(h), s)
        write(uo) 1
     case(11)
        read(us) h; call gets(s); read(us) r
        names = "-"
        if(r.eq.1) then
           call hdf5_list_datasets(handle(h), s, n, names)
        else
           call hdf5_list_datasets(handle(h), s, n)
        endif
        write(uo) 1, n, names
     case(12)
        read(us) h; call gets(s); read(us) r
        names = "-"
        if(r.eq.1) then
           call hdf5_list_groups(handle(h), s, n, names)
        else
           call hdf5_list_groups(handle(h), s, n)
        endif
        write(uo) 1, n, names
     case(13)
        read(us) h; call gets(s); read(us) r
        names = "-"
        if(r.eq.1) then
           call hdf5_list_attributes(handle(h), s, n, names)
        else
           call hdf5_list_attributes(handle(h), s, n)
        endif
        write(uo) 1, n, names
     case(14)
        read(us) h
        fn = " "
        call h5fget_name_f(hdf5_get_file_id(handle(h)), fn, nl, err)
        write(uo) 1, fn
     end select
     flush(uo)
  end do
  write(uo) 77777
  close(uo)
end program main""")
    return "\n".join(out) + "\n"


def build(ctx):
    """Builds the wrapper and the driver with sanitizers; returns (program, environment)."""
    b = ctx.path("fbuild", "x")
    b = os.path.dirname(b)
    env = dict(ctx.env, CC="/usr/bin/gcc", FC="/usr/bin/gfortran")
    src = os.path.join(b, "driver.f90")
    open(src, "w").write(source())
    san = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -g1"

    def run(cmd, what):
        p = subprocess.run(cmd, env=env, capture_output=True, text=True, cwd=b)
        if p.returncode:
            raise core.Inconclusive("%s does not build: %s" % (what, (p.stdout + p.stderr)[-1500:]))
    run(["cmake", "-Wno-dev", "-Wno-deprecated", "-S", os.path.join(core.REPO, "fortran/hdf5_wrapper"), "-B", os.path.join(b, "w"), "-DCMAKE_BUILD_TYPE=Debug",
         "-DCMAKE_Fortran_FLAGS=-fallow-argument-mismatch -w " + san, "-DCMAKE_C_FLAGS=" + san, "-DCMAKE_LIBRARY_PATH=/usr/lib/x86_64-linux-gnu/hdf5/serial"], "the Fortran wrapper")
    run(["cmake", "--build", os.path.join(b, "w"), "--target", "hdfwrapper", "-j8"], "the Fortran wrapper")
    exe = os.path.join(b, "driver")
    run(["gfortran", "-O0", "-w", "-ffree-line-length-none"] + san.split() + ["-I" + os.path.join(b, "w", "include"), "-I/usr/include/hdf5/serial", "-o", exe, src,
         os.path.join(b, "w/lib/libhdfwrapper.so"), "-Wl,-rpath," + os.path.join(b, "w/lib"), "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_fortran", "-lhdf5",
         "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial"], "the Fortran driver")
    return exe
