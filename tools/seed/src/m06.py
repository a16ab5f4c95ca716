P='C17'
FILES=[('src/linalg/tracevector.cpp','	MPI_Waitall(nbdranks.size(), srequests.data(), MPI_STATUSES_IGNORE);','	MPI_Waitall(nbdranks.empty() ? 0 : 1, srequests.data(), MPI_STATUSES_IGNORE);'),]
NEEDS='three or more processes so that one has several neighbours, and a receiver late enough, or messages large enough, that a send is still in progress'
BREAKS='only the first send is completed before the exchange returns; the other send buffers are released while the library may still read them'
DEMO=r'''
// np 3
#include "demo.hpp"
#undef MPI_Isend
#undef MPI_Wait
#undef MPI_Waitall
#undef MPI_Waitany
#undef MPI_Test
#undef MPI_Testall
// sends are made synchronous, which the MPI standard allows, and followed until they are complete
static std::vector<MPI_Request> open_;
extern "C" int MPI_Isend(const void*b,int n,MPI_Datatype t,int d,int g,MPI_Comm c,MPI_Request*q) { if(c!=MPI_COMM_WORLD) return PMPI_Isend(b,n,t,d,g,c,q); int e=PMPI_Issend(b,n,t,d,g,c,q); open_.push_back(*q); return e; }
static void closeR(MPI_Request r) { for(size_t i=0;i<open_.size();i++) if(open_[i]==r) { open_.erase(open_.begin()+i); return; } }
extern "C" int MPI_Wait(MPI_Request*q,MPI_Status*s) { MPI_Request o=*q; int e=PMPI_Wait(q,s); closeR(o); return e; }
extern "C" int MPI_Waitall(int n,MPI_Request*q,MPI_Status*s) { std::vector<MPI_Request> o(q,q+n); int e=PMPI_Waitall(n,q,s); for(auto r:o) closeR(r); return e; }
extern "C" int MPI_Waitany(int n,MPI_Request*q,int*i,MPI_Status*s) { std::vector<MPI_Request> o(q,q+n); int e=PMPI_Waitany(n,q,i,s); if(*i!=MPI_UNDEFINED) closeR(o[*i]); return e; }
extern "C" int MPI_Test(MPI_Request*q,int*f,MPI_Status*s) { MPI_Request o=*q; int e=PMPI_Test(q,f,s); if(*f) closeR(o); return e; }
extern "C" int MPI_Testall(int n,MPI_Request*q,int*f,MPI_Status*s) { std::vector<MPI_Request> o(q,q+n); int e=PMPI_Testall(n,q,f,s); if(*f) for(auto r:o) closeR(r); return e; }
int main(int argc,char**argv) { Env env(argc,argv); std::string W=argv[1]; Mesh g=load(rect(9,9,true),W); int nn=0; std::set<int> nb; for(int i=0;i<g.gnConnFace();i++) nb.insert(g.gconnface(i,2)); nn=nb.size(); int mx; MPI_Allreduce(&nn,&mx,1,MPI_INT,MPI_MAX,MPI_COMM_WORLD); if(mx<2) { std::printf("no process has two neighbours\n"); return 0; }
	L2TraceVector<freal,4> v(g); for(int k=0;k<5;k++) { v.updateSharedFacesBegin(); v.updateSharedFacesEnd(); CHECK(open_.empty(),"%zu sends are still in progress after the exchange",open_.size()); }
	return 0; }
'''
