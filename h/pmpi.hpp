// Records every collective operation of this process on a communicator of more than one process; after each case all processes must have recorded the same sequence.
// A different sequence is a mismatch (a hang, or data combined across different operations) even where the MPI library happens to get through.
#ifndef VF_PMPI_H
#define VF_PMPI_H
#include <mpi.h>
#include <cstdint>
#include <cstring>
namespace vf { struct CollLog { bool on=false; uint64_t h=0; long n=0; char last[12][40]; void add(const char*what,int size,long count,int op,int root) { if(!on) return; auto mixin=[&](uint64_t v) { h=(h^v)*0x100000001b3ull; h^=h>>29; }; for(const char*p=what;*p;p++) mixin(*p); mixin(size); mixin(count); mixin(op); mixin(root); snprintf(last[n%12],40,"%s(%d x%ld op%d root%d)",what,size,count,op,root); n++; } };
inline CollLog&collLog() { static CollLog l; return l; }
inline int opIdx(MPI_Op o) { return o==MPI_SUM?1:o==MPI_MAX?2:o==MPI_MIN?3:o==MPI_LAND?4:o==MPI_LOR?5:o==MPI_BAND?6:o==MPI_BOR?7:o==MPI_PROD?8:o==MPI_MAXLOC?9:o==MPI_MINLOC?10:11; }
inline long tsz(MPI_Datatype t) { int s=0; if(t==MPI_DATATYPE_NULL) return 0; PMPI_Type_size(t,&s); return s; }
inline bool multi(MPI_Comm c) { int n=1; PMPI_Comm_size(c,&n); return n>1; } }
extern "C" {
#define VF_REC(c,...) if(vf::collLog().on&&vf::multi(c)) vf::collLog().add(__VA_ARGS__)
int MPI_Barrier(MPI_Comm c) { VF_REC(c,"Barrier",0,0,0,-1); return PMPI_Barrier(c); }
int MPI_Bcast(void*b,int n,MPI_Datatype t,int r,MPI_Comm c) { VF_REC(c,"Bcast",0,n*vf::tsz(t),0,r); return PMPI_Bcast(b,n,t,r,c); }
int MPI_Allreduce(const void*s,void*d,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c) { VF_REC(c,"Allreduce",(int)vf::tsz(t),n,vf::opIdx(o),-1); return PMPI_Allreduce(s,d,n,t,o,c); }
int MPI_Iallreduce(const void*s,void*d,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c,MPI_Request*q) { VF_REC(c,"Iallreduce",(int)vf::tsz(t),n,vf::opIdx(o),-1); return PMPI_Iallreduce(s,d,n,t,o,c,q); }
int MPI_Reduce(const void*s,void*d,int n,MPI_Datatype t,MPI_Op o,int r,MPI_Comm c) { VF_REC(c,"Reduce",(int)vf::tsz(t),n,vf::opIdx(o),r); return PMPI_Reduce(s,d,n,t,o,r,c); }
int MPI_Allgather(const void*s,int n,MPI_Datatype t,void*d,int m,MPI_Datatype u,MPI_Comm c) { VF_REC(c,"Allgather",0,m*vf::tsz(u),0,-1); return PMPI_Allgather(s,n,t,d,m,u,c); }
int MPI_Allgatherv(const void*s,int n,MPI_Datatype t,void*d,const int*m,const int*e,MPI_Datatype u,MPI_Comm c) { VF_REC(c,"Allgatherv",(int)vf::tsz(u),0,0,-1); return PMPI_Allgatherv(s,n,t,d,m,e,u,c); }
int MPI_Gather(const void*s,int n,MPI_Datatype t,void*d,int m,MPI_Datatype u,int r,MPI_Comm c) { VF_REC(c,"Gather",0,n*vf::tsz(t),0,r); return PMPI_Gather(s,n,t,d,m,u,r,c); }
int MPI_Scan(const void*s,void*d,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c) { VF_REC(c,"Scan",(int)vf::tsz(t),n,vf::opIdx(o),-1); return PMPI_Scan(s,d,n,t,o,c); }
int MPI_Exscan(const void*s,void*d,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c) { VF_REC(c,"Exscan",(int)vf::tsz(t),n,vf::opIdx(o),-1); return PMPI_Exscan(s,d,n,t,o,c); }
int MPI_Alltoall(const void*s,int n,MPI_Datatype t,void*d,int m,MPI_Datatype u,MPI_Comm c) { VF_REC(c,"Alltoall",0,m*vf::tsz(u),0,-1); return PMPI_Alltoall(s,n,t,d,m,u,c); }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm*d) { VF_REC(c,"Comm_dup",0,0,0,-1); return PMPI_Comm_dup(c,d); }
int MPI_Comm_split(MPI_Comm c,int a,int k,MPI_Comm*d) { VF_REC(c,"Comm_split",0,0,0,-1); return PMPI_Comm_split(c,a,k,d); }
}
// Point-to-point requests on MPI_COMM_WORLD (PETSc uses communicators of its own): every request must be completed before the case ends, and the data of a send must not change before that.
// With VF_PMPI=2 every non-blocking send is made synchronous, as the MPI standard allows: it completes only once the receiver has matched it, so nothing can rely on the library having copied the buffer.
#include <vector>
namespace vf { struct ReqLog { struct R { MPI_Request q; const void*p; long n; uint64_t h; int peer,send; }; std::vector<R> out; long sends=0,recvs=0; int moved=0,sync=0; char what[160]; static uint64_t sum(const void*p,long n) { uint64_t h=0xcbf29ce484222325ull; const unsigned char*c=(const unsigned char*)p; for(long i=0;i<n;i++) h=(h^c[i])*0x100000001b3ull; return h; }
	void post(MPI_Request q,const void*p,long n,int peer,int send) { (send?sends:recvs)++; out.push_back({q,p,n,send?sum(p,n):0,peer,send}); }
	void done(MPI_Request q) { if(q==MPI_REQUEST_NULL) return; for(size_t i=0;i<out.size();i++) if(out[i].q==q) { check(out[i]); out.erase(out.begin()+i); return; } }
	void check(const R&r) { if(r.send&&sync&&sum(r.p,r.n)!=r.h&&!moved++) snprintf(what,sizeof what,"the %ld bytes sent to process %d changed before the send was complete",r.n,r.peer); } };
inline ReqLog&reqLog() { static ReqLog l; return l; } 
inline bool tracked(MPI_Comm c) { return collLog().on&&c==MPI_COMM_WORLD; } }
extern "C" {
int MPI_Isend(const void*b,int n,MPI_Datatype t,int d,int g,MPI_Comm c,MPI_Request*q) { if(!vf::tracked(c)) return PMPI_Isend(b,n,t,d,g,c,q); int e=vf::reqLog().sync?PMPI_Issend(b,n,t,d,g,c,q):PMPI_Isend(b,n,t,d,g,c,q); vf::reqLog().post(*q,b,n*vf::tsz(t),d,1); return e; }
int MPI_Irecv(void*b,int n,MPI_Datatype t,int d,int g,MPI_Comm c,MPI_Request*q) { int e=PMPI_Irecv(b,n,t,d,g,c,q); if(vf::tracked(c)) vf::reqLog().post(*q,b,n*vf::tsz(t),d,0); return e; }
#define VF_OLD(n,q) std::vector<MPI_Request> o; if(vf::collLog().on&&!vf::reqLog().out.empty()) o.assign(q,q+n)
int MPI_Wait(MPI_Request*q,MPI_Status*s) { VF_OLD(1,q); int e=PMPI_Wait(q,s); if(o.size()) vf::reqLog().done(o[0]); return e; }
int MPI_Waitall(int n,MPI_Request*q,MPI_Status*s) { VF_OLD(n,q); int e=PMPI_Waitall(n,q,s); for(auto r:o) vf::reqLog().done(r); return e; }
int MPI_Waitany(int n,MPI_Request*q,int*i,MPI_Status*s) { VF_OLD(n,q); int e=PMPI_Waitany(n,q,i,s); if(o.size()&&*i!=MPI_UNDEFINED) vf::reqLog().done(o[*i]); return e; }
int MPI_Waitsome(int n,MPI_Request*q,int*m,int*i,MPI_Status*s) { VF_OLD(n,q); int e=PMPI_Waitsome(n,q,m,i,s); if(o.size()&&*m!=MPI_UNDEFINED) for(int k=0;k<*m;k++) vf::reqLog().done(o[i[k]]); return e; }
int MPI_Test(MPI_Request*q,int*f,MPI_Status*s) { VF_OLD(1,q); int e=PMPI_Test(q,f,s); if(o.size()&&*f) vf::reqLog().done(o[0]); return e; }
int MPI_Testall(int n,MPI_Request*q,int*f,MPI_Status*s) { VF_OLD(n,q); int e=PMPI_Testall(n,q,f,s); if(*f) for(auto r:o) vf::reqLog().done(r); return e; }
int MPI_Testany(int n,MPI_Request*q,int*i,int*f,MPI_Status*s) { VF_OLD(n,q); int e=PMPI_Testany(n,q,i,f,s); if(o.size()&&*f&&*i!=MPI_UNDEFINED) vf::reqLog().done(o[*i]); return e; }
int MPI_Testsome(int n,MPI_Request*q,int*m,int*i,MPI_Status*s) { VF_OLD(n,q); int e=PMPI_Testsome(n,q,m,i,s); if(o.size()&&*m!=MPI_UNDEFINED) for(int k=0;k<*m;k++) vf::reqLog().done(o[i[k]]); return e; }
}
namespace vf { // compares the logs of all processes; collective
template<class R> inline void collCheck(R&rep) { CollLog&L=collLog(); int np=1,rk=0; PMPI_Comm_size(MPI_COMM_WORLD,&np); if(!L.on||np<2) return; PMPI_Comm_rank(MPI_COMM_WORLD,&rk);
	ReqLog&Q=reqLog(); static long ps=0,pr=0; rep.count("point-to-point sends followed",Q.sends-ps); rep.count("point-to-point receives followed",Q.recvs-pr); ps=Q.sends; pr=Q.recvs;
	if(!Q.out.empty()) { rep.viol("mpi:request-never-completed","%zu requests of this process were never waited for; the first: %s %ld bytes, process %d",Q.out.size(),Q.out[0].send?"send of":"receive of",Q.out[0].n,Q.out[0].peer); Q.out.clear(); }
	if(Q.moved) { rep.viol("mpi:send-buffer-changed","%s",Q.what); Q.moved=0; }
	PMPI_Barrier(MPI_COMM_WORLD); int there=0; MPI_Status st; PMPI_Iprobe(MPI_ANY_SOURCE,MPI_ANY_TAG,MPI_COMM_WORLD,&there,&st); if(there) rep.viol("mpi:message-never-received","a message from process %d was never received",st.MPI_SOURCE);
	uint64_t q[2]={L.h,(uint64_t)L.n},z[2]={0,0}; memcpy(z,q,sizeof q); PMPI_Bcast(z,2,MPI_UINT64_T,0,MPI_COMM_WORLD); static long tot=0; rep.count("collective operations compared",L.n-tot); tot=L.n;
	int bad=(z[0]!=q[0]||z[1]!=q[1]),any=0; PMPI_Allreduce(&bad,&any,1,MPI_INT,MPI_MAX,MPI_COMM_WORLD); if(any) { if(bad||rk==0) rep.viol("mpi:collectives-differ","process %d called %ld collectives, process 0 called %ld; last here: %s, %s, %s",rk,(long)L.n,(long)z[1],L.n>0?L.last[(L.n-1)%12]:"",L.n>1?L.last[(L.n-2)%12]:"",L.n>2?L.last[(L.n-3)%12]:""); L.on=false; } } }
#endif
