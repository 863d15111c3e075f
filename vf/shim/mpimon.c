/*
 * PMPI monitor: loaded with LD_PRELOAD into the ranks which run the code under
 * test.  Every MPI call made by the code (through mpi4py or parallel HDF5) goes
 * through here, so what is observed does not depend on how the Python is written.
 *
 * While recording is on it keeps
 *   - for each communicator, the sequence of collective calls (operation, root,
 *     reduction), as an event list which can be compared between ranks
 *   - per communicator and peer, messages and bytes sent and received
 *   - the largest single message
 *   - communicators and datatypes created and released, and requests posted
 * and, if asked, sleeps for a random short time before calls to vary the schedule.
 */
#define _GNU_SOURCE
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include <pthread.h>

#define MAXEV 400000
#define MAXCOMM 65536

typedef struct { int commid; int op; int root; long arg; } event_t;
static event_t *ev; static long nev; static int overflow;
static int recording = 0;
static unsigned delay_us = 0; static unsigned delay_prob = 0; static uint64_t rng = 88172645463325252ULL;
static long long max_msg = 0, n_p2p_send = 0, n_p2p_recv = 0, bytes_send = 0, bytes_recv = 0;
static long comms_made = 0, comms_freed = 0, types_made = 0, types_freed = 0;
static long live_comms = 0;
static long n_coll = 0, n_delays = 0, n_req = 0;
static int keyval = MPI_KEYVAL_INVALID;
static int next_id = 2;

enum { OP_ALLREDUCE=1, OP_REDUCE, OP_BCAST, OP_GATHER, OP_GATHERV, OP_ALLGATHER, OP_ALLGATHERV,
       OP_ALLTOALL, OP_ALLTOALLV, OP_ALLTOALLW, OP_SCATTER, OP_SCATTERV, OP_SCAN, OP_EXSCAN, OP_BARRIER,
       OP_SPLIT, OP_DUP, OP_CREATE, OP_FREE, OP_SPLIT_TYPE, OP_SEND, OP_RECV };

static void maybe_delay(void) {
    if (!recording || !delay_us) return;
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    if ((rng >> 33) % 100 < delay_prob) { n_delays++; usleep(1 + (rng >> 13) % delay_us); }
}

static int comm_id(MPI_Comm c) {
    int flag = 0; void *v = NULL;
    if (c == MPI_COMM_WORLD) return 0;
    if (c == MPI_COMM_SELF) return 1;
    if (keyval == MPI_KEYVAL_INVALID) return -1;
    PMPI_Comm_get_attr(c, keyval, &v, &flag);
    if (flag) return (int)(intptr_t)v;
    return -1;
}
static int del_attr(MPI_Comm c, int k, void *a, void *e) { return MPI_SUCCESS; }

/* Give a new communicator an id all of its members agree on: made from the
   world rank of its first member and that rank's own counter. */
static void tag_comm(MPI_Comm c) {
    if (c == MPI_COMM_NULL) return;
    if (keyval == MPI_KEYVAL_INVALID)
        PMPI_Comm_create_keyval(MPI_COMM_NULL_COPY_FN, del_attr, &keyval, NULL);
    int r, wr, id;
    PMPI_Comm_rank(c, &r); PMPI_Comm_rank(MPI_COMM_WORLD, &wr);
    if (r == 0) id = (next_id++) * 256 + wr;
    PMPI_Bcast(&id, 1, MPI_INT, 0, c);
    PMPI_Comm_set_attr(c, keyval, (void*)(intptr_t)id);
}

static void rec(MPI_Comm c, int op, int root, long arg) {
    if (!recording) return;
    if (nev >= MAXEV) { overflow = 1; return; }
    ev[nev].commid = comm_id(c); ev[nev].op = op; ev[nev].root = root; ev[nev].arg = arg; nev++;
    if (op < OP_SPLIT) n_coll++;
}
static void big(long long count, MPI_Datatype t) {
    if (!recording) return;
    int s = 0; PMPI_Type_size(t, &s);
    long long b = count * (long long)s; if (b > max_msg) max_msg = b;
}
static long opcode(MPI_Op op) {
    MPI_Op known[] = {MPI_SUM, MPI_MAX, MPI_MIN, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR, MPI_PROD, MPI_LXOR, MPI_BXOR, MPI_MAXLOC, MPI_MINLOC};
    for (unsigned i = 0; i < sizeof(known)/sizeof(known[0]); i++) if (known[i] == op) return i + 1;
    return 99;   /* user defined: handle values differ between ranks */
}

/* ---- control, called through ctypes ---- */
void vmon_start(uint64_t seed, unsigned dus, unsigned prob) {
    if (!ev) ev = malloc(sizeof(event_t) * MAXEV);
    nev = 0; overflow = 0; max_msg = n_p2p_send = n_p2p_recv = bytes_send = bytes_recv = 0;
    comms_made = comms_freed = types_made = types_freed = n_coll = n_delays = n_req = 0;
    rng = seed * 2862933555777941757ULL + 3037000493ULL; if (!rng) rng = 1;
    delay_us = dus; delay_prob = prob; recording = 1;
}
void vmon_stop(void) { recording = 0; }
long vmon_nevents(void) { return nev; }
int vmon_overflow(void) { return overflow; }
void vmon_event(long i, int *commid, int *op, int *root, long *arg) {
    *commid = ev[i].commid; *op = ev[i].op; *root = ev[i].root; *arg = ev[i].arg;
}
void vmon_counters(long long *o) {
    o[0]=max_msg; o[1]=n_p2p_send; o[2]=n_p2p_recv; o[3]=bytes_send; o[4]=bytes_recv;
    o[5]=comms_made; o[6]=comms_freed; o[7]=types_made; o[8]=types_freed; o[9]=n_coll; o[10]=n_delays; o[11]=n_req;
}
void vmon_tag(MPI_Fint f) { tag_comm(MPI_Comm_f2c(f)); }
long vmon_live(void) { return live_comms; }
int vmon_id(MPI_Fint f) { return comm_id(MPI_Comm_f2c(f)); }

/* ---- collectives ---- */
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{ maybe_delay(); rec(c, OP_ALLREDUCE, -1, opcode(op)); big(n,t); return PMPI_Allreduce(s,r,n,t,op,c); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{ maybe_delay(); rec(c, OP_REDUCE, root, opcode(op)); big(n,t); return PMPI_Reduce(s,r,n,t,op,root,c); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{ maybe_delay(); rec(c, OP_BCAST, root, 0); big(n,t); return PMPI_Bcast(b,n,t,root,c); }
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{ maybe_delay(); rec(c, OP_GATHER, root, 0); return PMPI_Gather(s,sn,st,r,rn,rt,root,c); }
int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *d, MPI_Datatype rt, int root, MPI_Comm c)
{ maybe_delay(); rec(c, OP_GATHERV, root, 0); return PMPI_Gatherv(s,sn,st,r,rn,d,rt,root,c); }
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
{ maybe_delay(); rec(c, OP_ALLGATHER, -1, 0); return PMPI_Allgather(s,sn,st,r,rn,rt,c); }
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *d, MPI_Datatype rt, MPI_Comm c)
{ maybe_delay(); rec(c, OP_ALLGATHERV, -1, 0); return PMPI_Allgatherv(s,sn,st,r,rn,d,rt,c); }
int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
{ maybe_delay(); rec(c, OP_ALLTOALL, -1, 0); return PMPI_Alltoall(s,sn,st,r,rn,rt,c); }
int MPI_Alltoallv(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *r, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c)
{ maybe_delay(); rec(c, OP_ALLTOALLV, -1, 0); return PMPI_Alltoallv(s,sn,sd,st,r,rn,rd,rt,c); }
int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{ maybe_delay(); rec(c, OP_SCATTER, root, 0); return PMPI_Scatter(s,sn,st,r,rn,rt,root,c); }
int MPI_Scatterv(const void *s, const int *sn, const int *d, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{ maybe_delay(); rec(c, OP_SCATTERV, root, 0); return PMPI_Scatterv(s,sn,d,st,r,rn,rt,root,c); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{ maybe_delay(); rec(c, OP_SCAN, -1, opcode(op)); return PMPI_Scan(s,r,n,t,op,c); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{ maybe_delay(); rec(c, OP_EXSCAN, -1, opcode(op)); return PMPI_Exscan(s,r,n,t,op,c); }
int MPI_Barrier(MPI_Comm c) { maybe_delay(); rec(c, OP_BARRIER, -1, 0); return PMPI_Barrier(c); }

/* ---- communicators ---- */
int MPI_Comm_split(MPI_Comm c, int colour, int key, MPI_Comm *n)
{ maybe_delay(); rec(c, OP_SPLIT, -1, 0); int e = PMPI_Comm_split(c,colour,key,n);
  if (e == MPI_SUCCESS) { tag_comm(*n); if (*n != MPI_COMM_NULL) { live_comms++; if (recording) comms_made++; } } return e; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *n)
{ maybe_delay(); rec(c, OP_DUP, -1, 0); int e = PMPI_Comm_dup(c,n);
  if (e == MPI_SUCCESS) { tag_comm(*n); live_comms++; if (recording) comms_made++; } return e; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *n)
{ maybe_delay(); rec(c, OP_CREATE, -1, 0); int e = PMPI_Comm_create(c,g,n);
  if (e == MPI_SUCCESS) { tag_comm(*n); if (*n != MPI_COMM_NULL) { live_comms++; if (recording) comms_made++; } } return e; }
int MPI_Comm_free(MPI_Comm *c)
{ maybe_delay(); rec(*c, OP_FREE, -1, 0); live_comms--; if (recording) comms_freed++; return PMPI_Comm_free(c); }

/* ---- datatypes ---- */
static void made(int e) { if (recording && e == MPI_SUCCESS) types_made++; }
int MPI_Type_commit(MPI_Datatype *t) { return PMPI_Type_commit(t); }
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype *n) { int e = PMPI_Type_dup(t,n); made(e); return e; }
int MPI_Type_contiguous(int c, MPI_Datatype t, MPI_Datatype *n) { int e = PMPI_Type_contiguous(c,t,n); made(e); return e; }
int MPI_Type_create_struct(int c, const int b[], const MPI_Aint d[], const MPI_Datatype t[], MPI_Datatype *n)
{ int e = PMPI_Type_create_struct(c,b,d,t,n); made(e); return e; }
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint lb, MPI_Aint ex, MPI_Datatype *n)
{ int e = PMPI_Type_create_resized(t,lb,ex,n); made(e); return e; }
int MPI_Type_free(MPI_Datatype *t) { if (recording) types_freed++; return PMPI_Type_free(t); }

/* ---- point to point ---- */
static void snd(MPI_Comm c, int dest, long long n, MPI_Datatype t) {
    if (!recording || dest == MPI_PROC_NULL) return;
    int s = 0; PMPI_Type_size(t,&s); n_p2p_send++; bytes_send += n*(long long)s; big(n,t); rec(c, OP_SEND, dest, (long)(n*(long long)s));
}
static void rcvd(MPI_Comm c, MPI_Status *st) {
    if (!recording || st == MPI_STATUS_IGNORE || st->MPI_SOURCE == MPI_PROC_NULL) return;
    MPI_Count n = 0; PMPI_Get_elements_x(st, MPI_BYTE, &n);
    n_p2p_recv++;
    rec(c, OP_RECV, st->MPI_SOURCE, 0);
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{ maybe_delay(); snd(c,d,n,t); return PMPI_Send(b,n,t,d,tag,c); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{ maybe_delay(); snd(c,d,n,t); return PMPI_Ssend(b,n,t,d,tag,c); }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
{ maybe_delay(); snd(c,d,n,t); if (recording) n_req++; return PMPI_Isend(b,n,t,d,tag,c,r); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st)
{ maybe_delay(); MPI_Status l; int e = PMPI_Recv(b,n,t,s,tag,c,&l); rcvd(c,&l); if (st != MPI_STATUS_IGNORE) *st = l; return e; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r)
{ maybe_delay(); if (recording) { n_req++; if (s != MPI_PROC_NULL) { n_p2p_recv++; rec(c, OP_RECV, s, 0); } } return PMPI_Irecv(b,n,t,s,tag,c,r); }
int MPI_Mrecv(void *b, int n, MPI_Datatype t, MPI_Message *m, MPI_Status *st)
{ MPI_Status l; int e = PMPI_Mrecv(b,n,t,m,&l); if (recording && l.MPI_SOURCE != MPI_PROC_NULL) n_p2p_recv++; if (st != MPI_STATUS_IGNORE) *st = l; return e; }
int MPI_Imrecv(void *b, int n, MPI_Datatype t, MPI_Message *m, MPI_Request *r)
{ if (recording) n_p2p_recv++; return PMPI_Imrecv(b,n,t,m,r); }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *stat)
{ maybe_delay(); snd(c,d,sn,st); MPI_Status l; int e = PMPI_Sendrecv(sb,sn,st,d,stag,rb,rn,rt,s,rtag,c,&l); rcvd(c,&l); if (stat != MPI_STATUS_IGNORE) *stat = l; return e; }
