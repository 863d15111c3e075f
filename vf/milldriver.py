"""Builds the C and Fortran examples with sanitizers: the Millennium library with a driver which logs what its routines return, and the example programs."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from vf import core

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -g1 -O1".split()
CHECK = ["-fcheck=bounds,do,mem,pointer,recursion", "-w", "-std=legacy", "-ffree-line-length-none"]
H5 = ["-I/usr/include/hdf5/serial", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial"]

SORTS = [("r4", "real(kind=4)"), ("r8", "real(kind=8)"), ("i4", "integer(kind=4)"), ("i8", "integer(kind=8)"), ("ch", "character(len=slen)")]


def driver():
    out = ["""module drv
  implicit none
  integer, parameter :: us = 11, uo = 12
contains
  subroutine gets(s)
    character(len=:), allocatable :: s
    integer(kind=4) :: n
    read(us) n
    if(allocated(s)) deallocate(s)
    allocate(character(len=n) :: s)
    if(n.gt.0) read(us) s
  end subroutine gets
"""]
    for t, decl in SORTS:
        for k in (4, 8):
            out.append("""  subroutine s_%s_%d(slen, n)
    use sort
    integer(kind=4), intent(in) :: slen, n
    %s, allocatable :: a(:)
    integer(kind=%d), allocatable :: idx(:)
    integer(kind=4) :: step
    read(us) step
    allocate(a(n*step), idx(n*step))
    if(n*step.gt.0) read(us) a
    idx = -7
    call sort_index(a(1:n*step:step), idx(1:n*step:step))
    write(uo) a, idx
  end subroutine s_%s_%d
""" % (t, k, decl, k, t, k))
    out.append("""end module drv

program main
  use drv
  use readfilemod
  use readgroupsmod
  use readregionmod
  use filepathmod
  implicit none
  character(len=4096) :: arg
  character(len=:), allocatable :: basedir, basename
  integer(kind=4) :: op, isnap, ifile, ios, n, slen, v(8), bits, key, x, y, z, kind, ty, nhash, nfile, npart, np, nh
  integer(kind=4), allocatable :: cells(:), table(:)
  logical, allocatable :: hashmap(:)
  integer :: first, last, nfof, nid, nfoftot, nfiles, nsub, peano_hilbert_key
  integer, pointer :: a1(:), a2(:), a3(:), a4(:), a5(:)
  integer(kind=8), pointer :: ids(:)
  real(kind=4), pointer :: rx(:), ry(:), rz(:), vx(:), vy(:), vz(:)
  type(headertype) :: h
  type(halotype), pointer :: halo(:)
  type(subhalotype), pointer :: sub(:)
  real, allocatable :: pos(:,:), vel(:,:)
  integer(kind=8), allocatable :: pid(:)
  character(len=256) :: path
  external peano_hilbert_key

  call get_command_argument(1, arg)
  open(unit=us, file=trim(arg), form="unformatted", access="stream", status="old", action="read")
  call get_command_argument(2, arg)
  open(unit=uo, file=trim(arg), form="unformatted", access="stream", status="replace", action="write")
  do
     read(us, iostat=ios) op
     if(ios.ne.0) exit
     if(op.le.10) then
        call gets(basedir)
        call gets(basename)
        read(us) isnap, ifile
     endif
     write(uo) op
     nullify(a1, a2, a3, a4, a5, ids, rx, ry, rz, vx, vy, vz, halo, sub)
     select case(op)
     case(1)
        call readheader(basedir, basename, isnap, ifile, h)
        call puth()
     case(2)
        read(us) np, nh
        allocate(pos(3,np), vel(3,np), pid(np), table(nh))
        call readfile(basedir, basename, isnap, ifile, h, first, last, table, pos, vel, pid)
        call puth()
        write(uo) first, last
        write(uo) pos, vel, pid, table
        deallocate(pos, vel, pid, table)
     case(3)
        call readgrouptab(basedir, isnap, ifile, nfof, nid, nfoftot, nfiles, a1, a2)
        write(uo) nfof, nid, nfoftot, nfiles
        write(uo) size(a1), size(a2)
        write(uo) a1, a2
        deallocate(a1, a2)
     case(4, 6)
        if(op.eq.4) call readgroupids(basedir, isnap, ifile, nfof, nid, nfoftot, nfiles, ids)
        if(op.eq.6) call readsubids(basedir, isnap, ifile, nfof, nid, nfoftot, nfiles, ids)
        write(uo) nfof, nid, nfoftot, nfiles
        write(uo) size(ids)
        write(uo) ids
        deallocate(ids)
     case(5)
        call readsubtab(basedir, isnap, ifile, nfof, nsub, nid, nfoftot, nfiles, a1, a2, a3, a4, a5)
        write(uo) nfof, nid, nfoftot, nfiles, nsub
        write(uo) size(a1), size(a2), size(a3), size(a4), size(a5)
        write(uo) a1, a2, a3, a4, a5
        deallocate(a1, a2, a3, a4, a5)
     case(7)
        call readsubhalos(basedir, isnap, ifile, nfof, nsub, nid, nfoftot, nfiles, halo, sub)
        write(uo) nfof, nid, nfoftot, nfiles, nsub
        write(uo) size(halo), size(sub)
        write(uo) halo%nsubgroups, halo%firstsubgroup, sub%len, sub%offset, sub%parent
        write(uo) halo%mmean200, halo%rmean200, halo%mcrit200, halo%rcrit200, halo%mtophat200, halo%rtophat200
        do n = 1, 3
           write(uo) sub%pos(n)
        end do
        do n = 1, 3
           write(uo) sub%vel(n)
        end do
        write(uo) sub%veldisp, sub%vmax
        do n = 1, 3
           write(uo) sub%spin(n)
        end do
        write(uo) sub%mostboundid
        write(uo) sub%halfmass
        deallocate(halo, sub)
     case(8)
        read(us) nhash, nfile, n
        allocate(cells(n), hashmap(0:nhash-1))
        if(n.gt.0) read(us) cells
        hashmap = .false.
        hashmap(cells) = .true.
        call readregion(basedir, basename, isnap, nhash, hashmap, nfile, npart, rx, ry, rz, vx, vy, vz, ids)
        write(uo) npart
        write(uo) size(rx), size(ry), size(rz), size(vx), size(vy), size(vz), size(ids)
        write(uo) rx, ry, rz, vx, vy, vz
        write(uo) ids
        deallocate(rx, ry, rz, vx, vy, vz, ids, cells, hashmap)
     case(11)
        read(us) bits, x, y, z
        write(uo) peano_hilbert_key(x, y, z, bits)
     case(12)
        read(us) bits, key
        call peano_hilbert_key_inverse(key, bits, x, y, z)
        write(uo) x, y, z
     case(13)
        read(us) ty, kind, slen, n
        select case(ty*10+kind)
""")
    for i, (t, _) in enumerate(SORTS):
        for k in (4, 8):
            out.append("        case(%d)\n           call s_%s_%d(slen, n)" % (i * 10 + k, t, k))
    out.append("""        end select
     case(14)
        read(us) ty, isnap, ifile
        path = filepath(ty, isnap, ifile)
        write(uo) path
     end select
     flush(uo)
  end do
  write(uo) 77777
  close(uo)
contains
  subroutine puth()
    write(uo) h%npart, h%mass, h%time, h%redshift, h%flag_sfr, h%flag_feedback, h%nparttotal, h%flag_cooling, h%numfiles, &
         h%boxsize, h%omega0, h%omegalambda, h%hubbleparam, h%flag_stellarage, h%flag_metals, h%hashtabsize
  end subroutine puth
end program main
""")
    return "\n".join(out)


def run(ctx, cmd, cwd, what):
    env = dict(ctx.env, CC="/usr/bin/gcc", FC="/usr/bin/gfortran", TMPDIR=cwd)
    p = subprocess.run(cmd, env=env, capture_output=True, text=True, cwd=cwd)
    if p.returncode:
        raise core.Inconclusive("%s does not build: %s" % (what, (p.stdout + p.stderr)[-1500:]))


LIB = ["file_path.f90", "sort.f90", "readfile.f90", "readgroups.f90", "readregion.f90", "peano_keys.c", "readparticles.c"]
PROGS = ["readregionexample", "readgroupsexample", "readfileexample", "readsubhalosexample", "readfofgroupsexample"]


def fortran(ctx, flags, f, more, d):
    """Compile f, if necessary with the blank which current compilers want between STOP and a text (a finding)."""
    try:
        run(ctx, ["gfortran"] + flags + [f] + more, d, os.path.basename(f))
    except core.Inconclusive as e:
        src = open(f).read()
        new = re.sub(r"""(?i)\b(stop)(?=['"])""", r"\1 ", src)
        if new == src:
            raise
        g = os.path.join(d, os.path.basename(f))
        open(g, "w").write(new)
        run(ctx, ["gfortran"] + flags + [g] + more, d, os.path.basename(f))
        ctx.violation("stop-blank:" + os.path.basename(f), str(e))


def build_mill(ctx, progs=True):
    """One directory for files of either byte order: {"<": dir, ">": dir}, with the driver and the example programs."""
    src = os.path.join(core.REPO, "examples/millennium/fortran")

    def one(e):
        d = os.path.dirname(ctx.path("mill" + ("le" if e == "<" else "be"), "x"))
        conv = [] if e == "<" else ["-fconvert=big-endian"]
        swap = [] if e == "<" else ["-DBYTESWAP"]
        open(os.path.join(d, "driver.f90"), "w").write(driver())
        objs = []
        for f in LIB:
            o = os.path.splitext(f)[0] + ".o"
            objs.append(o)
            if f.endswith(".c"):
                run(ctx, ["gcc", "-w"] + SAN + swap + ["-c", os.path.join(src, f), "-o", o], d, f)
            else:
                fortran(ctx, SAN + CHECK + conv + ["-c"], os.path.join(src, f), ["-o", o], d)
        run(ctx, ["gfortran"] + SAN + CHECK + conv + ["driver.f90"] + objs + ["-o", "driver"], d, "the driver of the Millennium library")
        if progs:
            for p in PROGS:
                fortran(ctx, SAN + CHECK + conv, os.path.join(src, p + ".f90"), objs + ["-o", p], d)
        return e, d
    with ThreadPoolExecutor(2) as ex:
        return dict(ex.map(one, "<>"))


def build_readers(ctx):
    """The readers of single snapshot files of Millennium-2 and MR7: {name: program}."""
    ex = os.path.join(core.REPO, "examples")
    d = os.path.dirname(ctx.path("readers", "x"))
    w = os.path.join(d, "w")
    san = " ".join(SAN)
    out = {}
    run(ctx, ["gcc", "-w"] + SAN + [os.path.join(ex, "millennium2/c/read_mill2_snapshot_file.c"), "-o", "m2c"], d, "the Millennium-2 reader in C")
    run(ctx, ["gfortran"] + SAN + CHECK + [os.path.join(ex, "millennium2/fortran/read_m2_snapshot_file.f90"), "-o", "m2f"], d, "the Millennium-2 reader in Fortran")
    run(ctx, ["gcc", "-w"] + SAN + [os.path.join(ex, "millennium-wmap7/c/read_mr7_snapshot_file.c"), "-o", "mr7c"] + H5 + ["-lhdf5_hl", "-lhdf5"], d, "the MR7 reader in C")
    run(ctx, ["cmake", "-Wno-dev", "-Wno-deprecated", "-S", os.path.join(core.REPO, "fortran/hdf5_wrapper"), "-B", w, "-DCMAKE_BUILD_TYPE=Debug",
              "-DCMAKE_Fortran_FLAGS=-fallow-argument-mismatch -w " + san, "-DCMAKE_C_FLAGS=" + san, "-DCMAKE_LIBRARY_PATH=/usr/lib/x86_64-linux-gnu/hdf5/serial"], d, "the Fortran wrapper")
    run(ctx, ["cmake", "--build", w, "--target", "hdfwrapper", "-j8"], d, "the Fortran wrapper")
    run(ctx, ["gfortran"] + SAN + CHECK + ["-I" + os.path.join(w, "include"), os.path.join(ex, "millennium-wmap7/fortran/read_mr7_snapshot_file.f90"), "-o", "mr7f",
              os.path.join(w, "lib/libhdfwrapper.so"), "-Wl,-rpath," + os.path.join(w, "lib")] + H5 + ["-lhdf5_fortran", "-lhdf5"], d, "the MR7 reader in Fortran")
    for n in ("m2c", "m2f", "mr7c", "mr7f"):
        out[n] = os.path.join(d, n)
    return out


GROUPLIB = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "groupstuff.h"
int get_particles_in_cubes(int argc, void *argv[]);
typedef struct { unsigned int slen; unsigned int stype; char *s; } STR;
static FILE *in, *out;
static int geti(void) { int x; if (fread(&x, 4, 1, in) != 1) exit(3); return x; }
static float getf(void) { float x; if (fread(&x, 4, 1, in) != 1) exit(3); return x; }
static STR gets_(void) { STR s; s.slen = geti(); s.stype = 0; s.s = malloc(s.slen + 1); if (fread(s.s, 1, s.slen, in) != s.slen) exit(3); s.s[s.slen] = 0; return s; }
static void puti(int x) { fwrite(&x, 4, 1, out); }
static void put(void *p, size_t size, size_t n) { if (n) fwrite(p, size, n, out); }
static void *fresh(size_t n) { void *p = malloc(n); memset(p, 0x5a, n); return p; }
int main(int argc, char **argv)
{
  int op, num = 0, size = 0, nfiles = 0, n, i, r;
  int *hash = NULL, *ftab = NULL, *last = NULL, *nin = NULL;
  STR dir = {0}, base = {0};
  in = fopen(argv[1], "rb");
  out = fopen(argv[2], "wb");
  while (fread(&op, 4, 1, in) == 1)
    {
      puti(op);
      if (op == 0) { dir = gets_(); base = gets_(); num = geti(); }
      if (op == 1) { void *a[] = {&dir, &num}; puti(get_total_number_of_groups(2, a)); }
      if (op == 2) { void *a[] = {&dir, &num}; puti(get_minimum_group_len(2, a)); }
      if (op == 3)
        {
          n = geti();
          double *c = fresh(n * sizeof(double)), *ids = fresh(sizeof(double));
          void *a[] = {&dir, &num, c, ids};
          puti(get_groupcount_below_minimum_len(4, a));
          put(c, 8, n);
          put(ids, 8, 1);
          free(c);
          free(ids);
        }
      if (op == 4)
        {
          n = geti();
          int *l = fresh(n * 4), *f = fresh(n * 4), *g = fresh(n * 4);
          void *a[] = {&dir, &num, l, f, g};
          puti(get_group_catalogue(5, a));
          put(l, 4, n);
          put(f, 4, n);
          put(g, 4, n);
          free(l);
          free(f);
          free(g);
        }
      if (op == 5) { void *a[] = {&dir, &num, &base, &nfiles}; size = get_hash_table_size(4, a); puti(size); puti(nfiles); }
      if (op == 6)
        {
          free(hash); free(ftab); free(last); free(nin);
          hash = fresh(size * 4);
          ftab = fresh(size * 4);
          last = fresh(nfiles * 4);
          nin = fresh(nfiles * 4);
          void *a[] = {&dir, &num, &base, hash, ftab, last, nin};
          puti(get_hash_table(7, a));
        }
      if (op == 6 || op == 10) { put(hash, 4, size); put(ftab, 4, size); put(last, 4, nfiles); put(nin, 4, nfiles); }
      if (op == 7)
        {
          n = geti();
          int *c = fresh(n * 4);
          void *a[] = {&dir, &num, &base, hash, ftab, &size, last, nin, &n, c};
          puti(get_particles_in_cubes(10, a));
          put(c, 4, n);
          free(c);
        }
      if (op == 8)
        {
          int nr = geti(), file = geti();
          float s[3];
          n = geti();
          float *p = fresh(n * 12);
          void *a[] = {&dir, &num, &base, hash, ftab, &size, last, nin, &nr, &file, &n, p, s, s + 1, s + 2};
          puti(get_group_coordinates(15, a));
          put(p, 4, 3 * n);
          put(s, 4, 3);
          free(p);
        }
      if (op == 9)
        {
          float x = getf(), y = getf(), z = getf(), rad = getf();
          void *a[] = {&dir, &num, &base, hash, ftab, &size, last, nin, &x, &y, &z, &rad, NULL};
          n = get_spherical_region_count(12, a);
          float *p = fresh(n > 0 ? n * 12 : 0);
          a[12] = p;
          r = n >= 0 ? get_spherical_region_coordinates(13, a) : -1;
          puti(n);
          puti(r);
          if (n > 0) put(p, 4, 3 * n);
          free(p);
        }
      if (op == 11) { int v[4]; for (i = 0; i < 4; i++) v[i] = geti(); puti(peano_hilbert_key(v[1], v[2], v[3], v[0])); }
      if (op == 12) { int b = geti(), k = geti(), x, y, z; peano_hilbert_key_inverse(k, b, &x, &y, &z); puti(x); puti(y); puti(z); }
      fflush(out);
    }
  puti(77777);
  fclose(out);
  return 0;
}
"""


def build_grouplib(ctx):
    src = os.path.join(core.REPO, "examples/millennium/idl/IdlGroupLib")
    d = os.path.dirname(ctx.path("grouplib", "x"))
    open(os.path.join(d, "driver.c"), "w").write(GROUPLIB)
    run(ctx, ["gcc", "-w"] + SAN + ["-I" + src, "driver.c", os.path.join(src, "groupstuff.c"), "-lm", "-o", "driver"], d, "the library for IDL")
    return os.path.join(d, "driver")
