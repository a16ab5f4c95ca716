// Mesh monitors: connectivity, metrics, partitioning, face-trace exchange, orderings, level schedule, periodic pairing.
#include <numeric>
#include <iostream>
#include <fstream>
#include <sstream>
#include "mio.hpp"
#include "mesh/meshpartitioning.hpp"
#include "mesh/meshordering.hpp"
#include "mesh/details_lineordering.hpp"
#include "linalg/tracevector.hpp"
#include "spatial/diffusion.hpp"
#include "utilities/casesolvers.hpp"
namespace vf { Rep rep; AsFound asFound; }
static MOpt mopt(Rng&r) { MOpt o; o.nmin=1; o.nmax= mpiSize()>1? 8:7; if(mpiSize()>1) o.nmin=3; if(r.p(0.12)) { o.nmin=o.nmax=mpiSize()>1?3:r.i(1,2); } return o; }
// ------------------------------------------------------------------ metrics
struct Peek : public DiffusionMA<1> { Peek(const Mesh*m):DiffusionMA<1>(m,1.0,0.0,[](const freal*,const freal,const freal*,freal*s) { s[0]=0; },"NONE") {}
	double mid(int f,int d) const { return this->gr(f,d); } double bg(int b,int d) const { return this->rcbp(b,d); } const freal*centres() const { return this->rch.getArray(); } void aboutFace(amat::Array2d<freal>&a) { this->compute_ghost_cell_coords_about_face(a); } void aboutMid(amat::Array2d<freal>&a) { this->compute_ghost_cell_coords_about_midpoint(a); } };
static void checkMetrics(const GMesh&gm,const Geo&G,const LMesh&L) {
	const Mesh&m=*L.m; int ne=m.gnelem(),nf=m.gnaface(),cs=m.gConnBFaceStart(),ce=m.gConnBFaceEnd(); double R=0,ext=0; for(auto&p:gm.p) { R=std::max({R,std::fabs(p[0]),std::fabs(p[1])}); ext=std::max({ext,std::fabs(p[0]-gm.p[0][0]),std::fabs(p[1]-gm.p[0][1])}); } bool ok=true; auto V=[&](const char*k,const std::string&s) { if(ok) rep.viol(std::string("metric:")+k,"%s",s.c_str()); ok=false; };
	double eps=2e-15*R,s[1]={0},S; for(int e=0;e<ne;e++) { double a=G.area[L.cell[e]],h=0; for(int f:G.cf[L.cell[e]]) h=std::max(h,G.f[f].len); s[0]+=m.garea(e); if(!(m.garea(e)>0)) V("area-positive",sf("cell %d: %.17g",e,m.garea(e))); if(!(std::fabs(m.garea(e)-a)<=40*eps*R+1e-14*a)) V("area",sf("cell %d: %.17g, exact %.17g",e,m.garea(e),a)); }
	MPI_Allreduce(s,&S,1,MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); double dom=0,x0=gm.p[0][0],y0=gm.p[0][1]; for(auto&f:G.f) if(f.R<0) dom+=0.5*((gm.p[f.a][0]-x0)*(gm.p[f.b][1]-y0)-(gm.p[f.b][0]-x0)*(gm.p[f.a][1]-y0)); if(!(std::fabs(S-dom)<=40*eps*R*gm.el.size()+1e-13*dom)) V("area-sum",sf("%.17g, domain %.17g",S,dom));
	std::vector<double> cc(2*ne,-1e9); m.compute_cell_centres(cc.data()); for(int e=0;e<ne;e++) for(int d=0;d<2;d++) if(!(std::fabs(cc[2*e+d]-G.cc[L.cell[e]][d])<=4*eps)) V("centre",sf("cell %d",e));
	Peek P(&m); const freal*rc=P.centres(); for(int e=0;e<ne;e++) for(int d=0;d<2;d++) if(!(std::fabs(rc[2*e+d]-G.cc[L.cell[e]][d])<=4*eps)) V("stored-centre",sf("cell %d",e));
	std::vector<std::array<double,2>> cl(ne,std::array<double,2>{{0,0}}); std::vector<double> per(ne,0); amat::Array2d<freal> af(std::max(1,(int)m.gnbface()),2),am(std::max(1,(int)m.gnbface()),2); P.aboutFace(af); P.aboutMid(am);
	for(int f=0;f<nf;f++) { const Geo::F&F=G.f[L.face[f]]; int l=m.gintfac(f,0),r=m.gintfac(f,1); double sg=L.cell[l]==F.L?1:-1,nx=sg*F.nx,ny=sg*F.ny,t=4*eps/F.len+1e-14; double gx=m.gfacemetric(f,0),gy=m.gfacemetric(f,1),gl=m.gfacemetric(f,2); if(!(std::fabs(gx-nx)<=t&&std::fabs(gy-ny)<=t)) V("normal",sf("face %d: (%.15g,%.15g), expected (%.15g,%.15g)",f,gx,gy,nx,ny)); if(!(std::fabs(std::hypot(gx,gy)-1)<=1e-14)) V("unit",sf("face %d",f)); if(!(std::fabs(gl-F.len)<=4*eps)) V("length",sf("face %d: %.17g, exact %.17g",f,gl,F.len)); auto n2=m.gnormal(f); if(n2[0]!=gx||n2[1]!=gy) V("gnormal",sf("face %d",f));
		double mx=0.5*(gm.p[F.a][0]+gm.p[F.b][0]),my=0.5*(gm.p[F.a][1]+gm.p[F.b][1]); if(!(std::fabs(P.mid(f,0)-mx)<=2*eps&&std::fabs(P.mid(f,1)-my)<=2*eps)) V("face-midpoint",sf("face %d",f));
		cl[l][0]+=gx*gl; cl[l][1]+=gy*gl; per[l]+=gl; if(r<ne) { cl[r][0]-=gx*gl; cl[r][1]-=gy*gl; per[r]+=gl; }
		if(f<m.gnbface()) { double cx=G.cc[F.L][0],cy=G.cc[F.L][1]; double ex[2]={2*mx-cx,2*my-cy}; double dn=(mx-cx)*F.nx+(my-cy)*F.ny,fx[2]={cx+2*dn*F.nx,cy+2*dn*F.ny}; for(int d=0;d<2;d++) { if(!(std::fabs(P.bg(f,d)-ex[d])<=8*eps&&std::fabs(am(f,d)-ex[d])<=8*eps)) V("ghost-centre",sf("boundary face %d: %.15g, reflection about the mid-point %.15g",f,P.bg(f,d),ex[d])); double tf=40*eps*(1+std::hypot(mx-cx,my-cy)/F.len)+1e-11*std::hypot(mx-cx,my-cy)*(1+R/F.len*1e-3); double an=std::fabs(F.nx),bn=std::fabs(F.ny); if(an>0&&bn>0) tf+=40*eps*std::max(an/bn,bn/an); if(!(std::fabs(af(f,d)-fx[d])<=tf)) V("ghost-centre-about-face",sf("boundary face %d: %.15g, reflection about the face %.15g",f,af(f,d),fx[d])); } }
		if(f>=cs&&f<ce) { int o=L.cell[l]==F.L?F.R:F.L; for(int d=0;d<2;d++) if(!(std::fabs(rc[2*(ne+f-cs)+d]-G.cc[o][d])<=4*eps)) V("neighbour-centre",sf("connectivity face %d",f-cs)); } }
	for(int e=0;e<ne;e++) if(!(std::hypot(cl[e][0],cl[e][1])<=20*eps+1e-13*per[e])) V("closure",sf("cell %d: face vectors sum to (%.3g,%.3g), perimeter %.3g",e,cl[e][0],cl[e][1],per[e]));
	rep.count("metric faces",nf); }
static void mTopo(Rng&r,bool metrics) {
	MOpt o=mopt(r); GMesh gm=genMesh(r,o); bool su2=r.p(0.25); int ntb=r.p(0.6)?2:r.i(1,4),nte=r.p(0.6)?2:r.i(1,4); std::string d=gm.desc+sf(" %s tags %d %d",su2?"su2":"msh",ntb,nte); rep.at(rep.cur+" "+d); Geo G(gm); LMesh L; if(!L.build(gm,G,meshFileT(gm,su2,ntb,nte))) return;
	if(metrics) checkMetrics(gm,G,L); else { bool ok=checkTopo("topo",gm,G,L,ntb,su2); if(ok) { checkWritten("topo",gm,*L.m,L.cell,ntb,nte,su2); Quiet q; L.m->compute_boundary_points(); L.m->printmeshstats(); } }
	rep.eval(mix(hashs(d),hashd(gm.p[0].data(),2*gm.p.size())),gm.el.size()>1); rep.count("cells",L.m->gnelem()); rep.count("faces",L.m->gnaface()); rep.sample(d); }

// ------------------------------------------------------------------ partitioning
struct AnyPart : public ReplicatedGlobalMeshPartitioner { std::vector<int> want; AnyPart(const Mesh&g):ReplicatedGlobalMeshPartitioner(g) {} void compute_partition() override { elemdist=want; } };
struct Scotch : public ScotchRGMPartitioner { Scotch(const Mesh&g):ScotchRGMPartitioner(g) {} const std::vector<int>&dist() const { return elemdist; } };
struct Trivial : public TrivialReplicatedGlobalMeshPartitioner { Trivial(const Mesh&g):TrivialReplicatedGlobalMeshPartitioner(g) {} const std::vector<int>&dist() const { return elemdist; } };
static std::vector<int> rndDist(Rng&r,const GMesh&gm,const Geo&G,int np) { int ne=gm.el.size(); std::vector<int> d(ne); int how=r.i(0,2); if(how==0) { for(int&x:d) x=r.i(0,np-1); } else if(how==1) { double a=r.u(0,6.28); std::vector<std::pair<double,int>> s; for(int e=0;e<ne;e++) s.push_back({G.cc[e][0]*std::cos(a)+G.cc[e][1]*std::sin(a),e}); std::sort(s.begin(),s.end()); for(int k=0;k<ne;k++) d[s[k].second]=(long)k*np/ne; } else { // an island inside another subdomain
		for(int&x:d) x=0; for(int q=1;q<np;q++) { int c=r.i(0,ne-1),n=r.i(1,std::max(1,ne/(2*np))); std::vector<int> st={c}; std::set<int> seen={c}; for(size_t h=0;h<st.size()&&(int)st.size()<n;h++) for(int f:G.cf[st[h]]) { int o=G.f[f].L==st[h]?G.f[f].R:G.f[f].L; if(o>=0&&!seen.count(o)) { seen.insert(o); st.push_back(o); } } for(int e:st) d[e]=q; } }
	for(int q=0;q<np;q++) if(std::find(d.begin(),d.end(),q)==d.end()) { // no empty subdomain
		for(int t=0;t<1000;t++) { int e=r.i(0,ne-1); if(std::count(d.begin(),d.end(),d[e])>1) { d[e]=q; break; } } }
	return d; }
static void mPart(Rng&r) {
	MOpt o=mopt(r); o.nmin=std::max(o.nmin,2); o.nmax=std::max(o.nmin,o.nmax); GMesh gm=genMesh(r,o); int np=mpiSize(),me=mpiRank(),ne=gm.el.size(); if(ne<np) return; int how=r.i(0,3); bool su2=r.p(0.15); int ntb=r.p(0.6)?2:r.i(1,4),nte=r.p(0.6)?2:r.i(1,4); static const char*const hn[]={"trivial","constructMesh","Scotch","random"}; Geo G(gm); std::string desc=gm.desc+sf(" %s partition on %d, tags %d %d%s",hn[how],np,ntb,nte,su2?" su2":""); rep.at(rep.cur+" "+desc); std::string f=meshFileT(gm,su2,ntb,nte); std::vector<int> want; if(how==3) want=rndDist(r,gm,G,np);
	LMesh L; std::vector<int> dist; Mesh glob; { Quiet q; if(how!=1) { glob=Mesh(readMesh(f)); glob.correctBoundaryFaceOrientation(); glob.compute_topological(); } if(how==0) { Trivial p(glob); p.compute_partition(); dist=p.dist(); L.m.reset(new Mesh(p.restrictMeshToPartitions())); } else if(how==2) { Scotch p(glob); p.compute_partition(); dist=p.dist(); L.m.reset(new Mesh(p.restrictMeshToPartitions())); } else if(how==3) { AnyPart p(glob); p.want=want; p.compute_partition(); dist=want; L.m.reset(new Mesh(p.restrictMeshToPartitions())); } if(how!=1) { L.m->compute_topological(); L.m->compute_areas(); L.m->compute_face_data(); } }
	if(how==1) { if(!L.build(gm,G,f)) return; } else if(!L.mapCells(gm,G)) return;
	const Mesh&m=*L.m; int nl=m.gnelem(); bool ok=checkTopo("part",gm,G,L,ntb,su2); if(ok) checkWritten("part",gm,m,L.cell,ntb,nte,su2);
	if(how==0||how==1) { // contiguous, nearly equal chunks
		int base=ne/np; for(int e=0;e<nl&&ok;e++) if(m.gglobalElemIndex(e)!=me*base+e) { rep.viol("part:chunk","local cell %d has global number %d",e,(int)m.gglobalElemIndex(e)); ok=false; } if(ok&&nl!=(me<np-1?base:ne-base*(np-1))) { rep.viol("part:chunk-size","%d cells",nl); ok=false; } }
	// every global cell on exactly one rank, with its own number
	std::vector<int> own(ne,0),tot(ne),cnt(ne,0),tc(ne); for(int e=0;e<nl;e++) { own[L.cell[e]]+=me+1; cnt[L.cell[e]]++; } MPI_Allreduce(own.data(),tot.data(),ne,MPI_INT,MPI_SUM,MPI_COMM_WORLD); MPI_Allreduce(cnt.data(),tc.data(),ne,MPI_INT,MPI_SUM,MPI_COMM_WORLD); for(int e=0;e<ne;e++) if(tc[e]!=1) { rep.viol("part:cover","cell %d is on %d processes",e,tc[e]); ok=false; break; }
	for(int e=0;e<nl&&ok;e++) { if(m.gglobalElemIndex(e)!=L.cell[e]) { rep.viol("part:global-index","local cell %d is file cell %d but says %d",e,L.cell[e],(int)m.gglobalElemIndex(e)); ok=false; } if(ok&&dist.size()&&dist[L.cell[e]]!=me) { rep.viol("part:wrong-rank","cell %d assigned to %d is on %d",L.cell[e],dist[L.cell[e]],me); ok=false; } }
	// connectivity faces; record (common number, my rank, my cell) and compare across ranks by geometric face
	int nG=G.f.size(); std::vector<int> a(nG,0),A(nG),b(nG,0),B(nG),c(nG,0),C(nG); std::vector<fint> cg=m.getConnectivityGlobalIndices(); if((int)cg.size()!=m.gnConnFace()) { rep.viol("part:ghost-list","%zu entries",cg.size()); ok=false; }
	for(int q=0;q<m.gnConnFace()&&ok;q++) { int lfc=m.gConnBFaceStart()+q,g=L.face[lfc]; const Geo::F&F=G.f[g]; int mine=m.gconnface(q,0); if(mine<0||mine>=nl) { rep.viol("part:conn-cell","connectivity face %d cell %d",q,mine); ok=false; break; } int other=L.cell[mine]==F.L?F.R:F.L; bool has=L.cell[mine]==F.L||L.cell[mine]==F.R; int j=m.gconnface(q,1); bool side=j>=0&&j<m.gnnode(mine)&&m.gelemface(mine,j)==lfc; if(!has||!side) { rep.viol("part:conn-face","connectivity face %d: cell %d side %d",q,mine,j); ok=false; break; } if(m.gconnface(q,2)!=tot[other]-1||m.gconnface(q,3)!=other||cg[q]!=other) { rep.viol("part:conn-neighbour","connectivity face %d: names process %d cell %d (ghost list %d), the neighbour is cell %d on process %d",q,(int)m.gconnface(q,2),(int)m.gconnface(q,3),(int)cg[q],other,tot[other]-1); ok=false; break; } if(m.gconnface(q,4)<0) { rep.viol("part:conn-number","connectivity face %d: %d",q,(int)m.gconnface(q,4)); ok=false; break; } a[g]+=m.gconnface(q,4)+1; c[g]++; b[g]=std::max(b[g],(int)m.gconnface(q,4)+1); rep.count("connectivity faces"); }
	if(how==0||how==2||how==3) { AnyPart p(glob); Quiet q; p.want=dist; p.compute_partition(); (void)p.checkConnFaces(m); }
	MPI_Allreduce(a.data(),A.data(),nG,MPI_INT,MPI_SUM,MPI_COMM_WORLD); MPI_Allreduce(c.data(),C.data(),nG,MPI_INT,MPI_SUM,MPI_COMM_WORLD); MPI_Allreduce(b.data(),B.data(),nG,MPI_INT,MPI_MAX,MPI_COMM_WORLD); int bad=!ok,anybad; MPI_Allreduce(&bad,&anybad,1,MPI_INT,MPI_MAX,MPI_COMM_WORLD);
	if(!anybad) { std::set<int> num; for(int g=0;g<nG;g++) { if(C[g]==0) { if(G.f[g].R>=0&&tot[G.f[g].L]!=tot[G.f[g].R]) { rep.viol("part:face-lost","face between cells %d and %d on different processes is not a connectivity face",G.f[g].L,G.f[g].R); break; } continue; } if(C[g]!=2||A[g]!=2*B[g]) { rep.viol("part:conn-pair","face between cells %d and %d is on %d processes, numbers add to %d, largest %d",G.f[g].L,G.f[g].R,C[g],A[g]-C[g],B[g]-1); break; } if(!num.insert(B[g]).second) { rep.viol("part:conn-number-shared","two faces have number %d",B[g]-1); break; } } }
	rep.eval(hashs(desc),np>1); rep.count(std::string("partitions ")+hn[how]); rep.sample(desc); }

// ------------------------------------------------------------------ face-trace exchange
template<int NV> struct TV { L2TraceVector<freal,NV> v; const Mesh&m; const LMesh&L; std::vector<double> l,r; uint64_t id; int nf;
	TV(const LMesh&LL,uint64_t i):v(*LL.m),m(*LL.m),L(LL),id(i) { nf=m.gnaface(); l.assign(nf*NV,0); r.assign(nf*NV,0); }
	static double val(uint64_t id,int round,int face,int cell,int k) { return Rng(mix(mix(id,round*131+k),face*100003ull+cell)).u(-1e3,1e3); }
	void fill(int round) { double*a=v.getLocalArrayLeft(),*b=v.getLocalArrayRight(); for(int f=0;f<nf;f++) for(int k=0;k<NV;k++) { a[f*NV+k]=l[f*NV+k]=val(id,round,L.face[f],L.cell[m.gintfac(f,0)],k); b[f*NV+k]=r[f*NV+k]=val(id,round+50000,L.face[f],7,k); } }
	void scribble(Rng&q) { double*a=v.getLocalArrayLeft(); for(int f=0;f<nf;f++) for(int k=0;k<NV;k++) a[f*NV+k]=l[f*NV+k]=q.u(-9,9); }
	void check(const Geo&G,int round,const char*what) { const L2TraceVector<freal,NV>&cv=v; const double*a=cv.getLocalArrayLeft(),*b=cv.getLocalArrayRight(); if(a!=v.getLocalArrayLeft()||b!=v.getLocalArrayRight()) rep.viol("trace:accessors",""); int cs=m.gConnBFaceStart(),ce=m.gConnBFaceEnd(); for(int f=0;f<nf;f++) for(int k=0;k<NV;k++) { if(a[f*NV+k]!=l[f*NV+k]) { rep.viol("trace:left-changed","%s round %d face %d variable %d",what,round,f,k); return; } double ex=r[f*NV+k]; if(f>=cs&&f<ce) { const Geo::F&F=G.f[L.face[f]]; int mine=L.cell[m.gintfac(f,0)]; int o=mine==F.L?F.R:F.L; ex=val(id,round,L.face[f],o,k); } if(b[f*NV+k]!=ex) { rep.viol(f>=cs&&f<ce?"trace:neighbour-data":"trace:right-changed","%s round %d face %d variable %d of %d: %.15g, expected %.15g",what,round,f,k,NV,b[f*NV+k],ex); return; } } rep.count("exchanges"); rep.count("faces exchanged",ce-cs); } };
static void mTrace(Rng&r) {
	MOpt o=mopt(r); if(r.p(0.2)) o.nmax=20; GMesh gm=genMesh(r,o); int np=mpiSize(); if((int)gm.el.size()<np) return; Geo G(gm); int how=r.i(0,2); std::string desc=gm.desc+sf(" partition %d on %d",how,np); rep.at(rep.cur+" "+desc); std::string f=meshFile(gm); std::vector<int> want=rndDist(r,gm,G,np); LMesh L; { Quiet q; if(how==0) { if(!L.build(gm,G,f)) return; } else { Mesh glob(readMesh(f)); glob.correctBoundaryFaceOrientation(); glob.compute_topological(); if(how==1) { AnyPart p(glob); p.want=want; p.compute_partition(); L.m.reset(new Mesh(p.restrictMeshToPartitions())); } else { Scotch p(glob); p.compute_partition(); L.m.reset(new Mesh(p.restrictMeshToPartitions())); } L.m->compute_topological(); if(!L.mapCells(gm,G)) return; } }
	Rng mine(mix(r.next(),mpiRank())); auto delay=[&]() { if(np>1&&mine.p(0.25)) usleep(mine.i(0,300)); };
	uint64_t id=r.next(); TV<4> a(L,id); delay(); TV<1> b(L,id+1); TV<4> c(L,id+2); int rounds=r.i(1,6);
	for(int k=0;k<rounds;k++) { int pat=r.i(0,4); delay(); a.fill(k);
		if(pat==0) { a.v.updateSharedFacesBegin(); delay(); a.v.updateSharedFacesEnd(); a.check(G,k,"plain"); }
		else if(pat==1) { a.v.updateSharedFacesBegin(); delay(); a.scribble(mine); delay(); a.v.updateSharedFacesEnd(); a.check(G,k,"left data overwritten meanwhile"); }
		else if(pat==2) { b.fill(k); a.v.updateSharedFacesBegin(); delay(); b.v.updateSharedFacesBegin(); delay(); a.v.updateSharedFacesEnd(); a.check(G,k,"two vectors"); delay(); b.v.updateSharedFacesEnd(); b.check(G,k,"two vectors"); }
		else if(pat==3) { c.fill(k); a.v.updateSharedFacesBegin(); double x=mpiRank(),y; MPI_Allreduce(&x,&y,1,MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); c.v.updateSharedFacesBegin(); delay(); a.v.updateSharedFacesEnd(); c.v.updateSharedFacesEnd(); a.check(G,k,"same type"); c.check(G,k,"same type"); }
		else { b.fill(k); b.v.updateSharedFacesBegin(); delay(); b.v.updateSharedFacesEnd(); b.check(G,k,"one variable"); a.v.updateSharedFacesBegin(); a.v.updateSharedFacesEnd(); a.fill(k+1000); a.v.updateSharedFacesBegin(); delay(); a.v.updateSharedFacesEnd(); a.check(G,k+1000,"immediately repeated"); } }
	rep.eval(hashs(desc)+rounds,np>1); rep.count("rounds",rounds); rep.sample(desc); }

// ------------------------------------------------------------------ orderings
static double cdist(const Geo&G,int a,int b) { return std::hypot(G.cc[a][0]-G.cc[b][0],G.cc[a][1]-G.cc[b][1]); }
static void mOrder(Rng&r) {
	MOpt o=mopt(r); bool aniso=r.p(0.6); if(aniso) { o.nmin=2; o.nmax=9; o.stretch=r.u(1,4); o.perturb=r.p(0.3); o.pTri=r.p(0.7)?0:-1; o.pstrip=0.02; if(r.p(0.02)) { o.pstrip=1; o.kind=0; o.affine=false; o.stretch=0; o.perturb=false; o.pTri=0; } } Case c; c.gm=genMesh(r,o); if(aniso&&r.p(0.7)) { double s=r.lu(3,300); bool rot=r.p(0.5); for(auto&p:c.gm.p) p[rot?0:1]/=s; }
	const GMesh&gm=c.gm; int np=mpiSize(); if((int)gm.el.size()<np) return; c.setGeo(); rndConf(r,c,{B_FAR,B_SLIP,B_EXTRAP,B_INOUT},20,0.4); c.conf(); setState(r,c,r.lu(1e-3,0.1),r.i(0,1)); const Geo&G=*c.geo; static const std::vector<std::string> ords={"natural","rcm","nd","1wd","qmd","rowlength","line","line_natural","line_rcm","line_nd","line_1wd","line_qmd"}; std::string ord=r.pick(ords); double thr=r.p(0.2)?r.lu(1,2):r.lu(1.01,50); int ntb=r.i(1,3),nte=r.i(1,3); std::string desc=c.describe()+" "+ord+sf(" threshold %.4g",thr); rep.at(rep.cur+" "+desc); std::string f=meshFileT(gm,false,ntb,nte);
	// the lines of the unordered local mesh
	LMesh L0; if(!L0.build(gm,G,f)) return; LineConfig lc; { Quiet q; lc=findLines<freal>(*L0.m,thr); } const Mesh&m0=*L0.m; int ne=m0.gnelem(); bool ok=true; auto V=[&](const char*k,const std::string&s) { if(ok) rep.viol(std::string("lines:")+k,"%s",s.c_str()); ok=false; };
	auto nbrs=[&](int e) { std::vector<int> n; for(int j=0;j<m0.gnfael(e);j++) if(m0.gesuel(e,j)<ne) n.push_back(m0.gesuel(e,j)); return n; };
	// neighbour weight over the smallest weight of the cell
	auto weight=[&](int e,int n) { double mx=0; for(int q:nbrs(e)) mx=std::max(mx,cdist(G,L0.cell[e],L0.cell[q])); return mx/cdist(G,L0.cell[e],L0.cell[n]); };
	if((int)lc.celline.size()!=ne) V("cell-map",sf("%zu entries for %d cells",lc.celline.size(),ne)); else { std::vector<int> on(ne,-1); for(size_t k=0;k<lc.lines.size();k++) { const auto&l=lc.lines[k]; if(l.size()<2) V("short",sf("line %zu has %zu cells",k,l.size())); for(size_t q=0;q<l.size();q++) { int e=l[q]; if(e<0||e>=ne) { V("range",""); break; } if(on[e]>=0) V("disjoint",sf("cell %d is in lines %d and %zu",e,on[e],k)); on[e]=k; auto n=nbrs(e); double wm=0; for(int x:n) wm=std::max(wm,weight(e,x)); if(n.empty()||!(wm>thr*(1-1e-9))) V("isotropic-cell",sf("cell %d with anisotropy %.6g is in a line, threshold %.6g",e,wm,thr)); if(q+1<l.size()) { int e2=l[q+1]; if(std::find(n.begin(),n.end(),e2)==n.end()) V("adjacent",sf("cells %d and %d of line %zu are not neighbours",e,e2,k)); else if(!(weight(e,e2)>thr*(1-1e-9))) V("weak-link",sf("line %zu goes from cell %d to %d, coupling %.6g, threshold %.6g",k,e,e2,weight(e,e2),thr)); } rep.count("cells in lines"); }
				bool bnd=false; if(l.size()) for(int j=0;j<m0.gnfael(l[0]);j++) if(m0.gesuel(l[0],j)>=ne+m0.gnConnFace()) bnd=true; if(l.size()&&!bnd) V("start",sf("line %zu does not start at a boundary",k));
				// a line stops only when nothing more can be added
				int e=l.back(); for(int x:nbrs(e)) { double w=0; for(int y:nbrs(x)) w=std::max(w,weight(x,y)); bool strong=weight(e,x)>thr*(1+1e-9),an=w>thr*(1+1e-9); if(strong&&an) { bool later=lc.celline[x]>=0; if(!later) { bool best=true; for(int y:nbrs(e)) if(y!=x&&lc.celline[y]==-1&&weight(e,y)>=weight(e,x)*(1-1e-9)) best=false; if(best) V("stops-early",sf("line %zu ends at cell %d though its neighbour %d is free, anisotropic and coupled by %.6g > %.6g",k,e,x,weight(e,x),thr)); } } }
			} for(int e=0;e<ne&&ok;e++) if(on[e]!=lc.celline[e]) V("cell-map",sf("cell %d: line %d, recorded %d",e,on[e],lc.celline[e])); rep.count("lines",lc.lines.size()); }
	// the reordered mesh
	PetscOptionsSetValue(NULL,"-mesh_reorder",ord.c_str()); PetscOptionsSetValue(NULL,"-mesh_anisotropy_threshold",sf("%.17g",thr).c_str()); LMesh L; bool built=false; std::string ex; try { built=L.build(gm,G,f); } catch(const std::exception&e) { ex=e.what(); } catch(const char*e) { ex=e; } PetscOptionsClearValue(NULL,"-mesh_reorder"); PetscOptionsClearValue(NULL,"-mesh_anisotropy_threshold"); if(ex.size()) { rep.viol("order:failed","%s",ex.c_str()); return; } if(!built) return; const Mesh&m=*L.m;
	if(ok) ok=checkTopo("order",gm,G,L,ntb,false); if(ok) checkWritten("order",gm,m,L.cell,ntb,nte,false); if(!ok) return;
	{ std::set<int> a(L0.cell.begin(),L0.cell.end()),b(L.cell.begin(),L.cell.end()); if(a!=b) { rep.viol("order:not-a-permutation","the cells of this process changed"); return; } if(ord=="natural"&&L0.cell!=L.cell) rep.viol("order:natural","natural ordering moved cells"); if(L0.cell!=L.cell) rep.count("orderings that move cells"); }
	{ int off=0,n=ne; MPI_Exscan(&n,&off,1,MPI_INT,MPI_SUM,MPI_COMM_WORLD); if(mpiRank()==0) off=0; std::vector<int> at(gm.el.size(),0),At(gm.el.size()); for(int e=0;e<ne;e++) { if(m.gglobalElemIndex(e)!=off+e) { rep.viol("order:global-number","local cell %d: %d, position %d",e,(int)m.gglobalElemIndex(e),off+e); ok=false; break; } at[L.cell[e]]=off+e; } MPI_Allreduce(at.data(),At.data(),at.size(),MPI_INT,MPI_SUM,MPI_COMM_WORLD); for(int q=0;q<m.gnConnFace()&&ok;q++) { int lfc=m.gConnBFaceStart()+q; const Geo::F&F=G.f[L.face[lfc]]; int mn=L.cell[m.gintfac(lfc,0)],o2=mn==F.L?F.R:F.L; if(m.gconnface(q,3)!=At[o2]) { rep.viol("order:neighbour-number","connectivity face %d: neighbour %d, it is now number %d",q,(int)m.gconnface(q,3),At[o2]); ok=false; } } }
	// a named ordering numbers the cells, or the lines and the remaining cells, as PETSc's ordering of that name of their adjacency graph does
	if(ok&&ord!="natural"&&ord!="line") { bool ln=ord.substr(0,4)=="line"; std::vector<int> vert(ne,-1); std::vector<std::vector<int>> cells; if(ln) for(auto&l:lc.lines) { for(int e:l) vert[e]=cells.size(); cells.push_back(std::vector<int>(l.begin(),l.end())); } for(int e=0;e<ne;e++) if(vert[e]<0) { vert[e]=cells.size(); cells.push_back({e}); } int nv=cells.size(); std::vector<std::set<int>> ad(nv); for(int e=0;e<ne;e++) { ad[vert[e]].insert(vert[e]); for(int x:nbrs(e)) { ad[vert[e]].insert(vert[x]); ad[vert[x]].insert(vert[e]); } }
		std::vector<PetscInt> ia(1,0),ja; std::vector<PetscScalar> va; for(auto&q:ad) { for(int x:q) { ja.push_back(x); va.push_back(1); } ia.push_back(ja.size()); } std::vector<int> ex; if(ln&&ord.substr(5)=="natural") { for(int v=0;v<nv;v++) for(int e:cells[v]) ex.push_back(e); } else { Mat A; MatCreateSeqAIJWithArrays(PETSC_COMM_SELF,nv,nv,ia.data(),ja.data(),va.data(),&A); IS a,b; MatGetOrdering(A,ln?ord.substr(5).c_str():ord.c_str(),&a,&b); const PetscInt*q; ISGetIndices(a,&q); for(int v=0;v<nv;v++) for(int e:cells[q[v]]) ex.push_back(e); ISRestoreIndices(a,&q); ISDestroy(&a); ISDestroy(&b); MatDestroy(&A); }
		for(int e=0;e<ne;e++) if(L.cell[e]!=L0.cell[ex[e]]) { rep.viol("order:not-the-named-ordering","position %d: cell %d of the mesh, the %s ordering puts cell %d there",e,L.cell[e],ord.c_str(),L0.cell[ex[e]]); ok=false; break; } rep.count("orderings compared with the named one"); }
	// lines contiguous and in order, covering
	if(ord.substr(0,4)=="line") { std::vector<int> pos(gm.el.size(),-1); for(int e=0;e<ne;e++) pos[L.cell[e]]=e; for(auto&l:lc.lines) for(size_t q=0;q+1<l.size()&&ok;q++) if(pos[L0.cell[l[q+1]]]!=pos[L0.cell[l[q]]]+1) { rep.viol("order:line-not-contiguous","cells %d and %d of a line are numbered %d and %d",l[q],l[q+1],pos[L0.cell[l[q]]],pos[L0.cell[l[q+1]]]); ok=false; } 
		if(ord=="line"&&ok) { int k=0; for(auto&l:lc.lines) for(int e:l) if(pos[L0.cell[e]]!=k++) { rep.viol("order:lines-first","cell %d",e); ok=false; break; } }
		if(ord!="line") { Quiet q; std::vector<fint> h=getHybridLineOrdering<freal>(m0,thr,ord.substr(5).c_str()); std::vector<int> seen(ne,0); if((int)h.size()!=ne) rep.viol("order:hybrid-size","%zu",h.size()); else for(int k=0;k<ne;k++) { if(h[k]<0||h[k]>=ne||seen[h[k]]++) { rep.viol("order:hybrid-permutation","entry %d",k); ok=false; break; } if(L0.cell[h[k]]!=L.cell[k]) { rep.viol("order:hybrid-applied","position %d",k); ok=false; break; } } } }
	// physics does not notice
	int good=ok,all; MPI_Allreduce(&good,&all,1,MPI_INT,MPI_MIN,MPI_COMM_WORLD); if(all) { RefRes R=refResidual(c,c.u); if(!R.bad) { Lib X; X.lm.m=std::move(L.m); X.lm.cell=L.cell; X.lm.face=L.face; X.disc(c); X.set(c.u); X.residual(true); auto res=X.get(X.r),dt=X.get(X.dt); for(int e=0;e<ne;e++) { int k=L.cell[e]; if(R.skip[k]) continue; bool bad=false; for(int i=0;i<4;i++) if(!(std::fabs(res[4*e+i]+R.r[k][i])<=1e-6*R.scale[k][i])) { rep.viol("order:residual","cell %d variable %d: %.12g, expected %.12g",k,i,res[4*e+i],-R.r[k][i]); bad=true; break; } if(!bad&&!(std::fabs(dt[e]-R.dt[k])<=1e-6*R.dt[k])) { rep.viol("order:timestep","cell %d: %.12g, expected %.12g",k,dt[e],R.dt[k]); bad=true; } if(bad) break; } rep.count("residuals on reordered meshes"); } }
	rep.eval(hashs(desc)); rep.count("ordering "+ord); rep.sample(desc); }
// a direct permutation of the cells
static void mPerm(Rng&r) {
	GMesh gm=genMesh(r,mopt(r)); Geo G(gm); int ntb=r.i(1,3),nte=r.i(1,3); std::string desc=gm.desc+sf(" random permutation, tags %d %d",ntb,nte); rep.at(rep.cur+" "+desc); std::string f=meshFileT(gm,false,ntb,nte); LMesh L; Quiet q; L.m.reset(new Mesh(readMesh(f))); int ne=L.m->gnelem(); std::vector<PetscInt> p(ne); for(int k=0;k<ne;k++) p[k]=k; for(int k=ne-1;k>0;k--) std::swap(p[k],p[r.i(0,k)]); std::vector<std::vector<DP>> before(ne); for(int e=0;e<ne;e++) for(int j=0;j<L.m->gnnode(e);j++) before[e].push_back(pt(*L.m,L.m->ginpoel(e,j))); L.m->correctBoundaryFaceOrientation(); if(r.p(0.5)) L.m->compute_topological(); L.m->reorder_cells(p.data()); for(int e=0;e<ne;e++) { std::vector<DP> now; for(int j=0;j<L.m->gnnode(e);j++) now.push_back(pt(*L.m,L.m->ginpoel(e,j))); if(now!=before[p[e]]) { rep.viol("perm:cell","position %d does not hold cell %d",e,(int)p[e]); return; } } L.m->compute_topological(); if(L.mapCells(gm,G)) { if(mpiSize()==1&&checkTopo("perm",gm,G,L,ntb,false)) checkWritten("perm",gm,*L.m,L.cell,ntb,nte,false); } rep.eval(hashs(desc)); rep.count("direct permutations"); }

// ------------------------------------------------------------------ level schedule
// cells of one colour (no two adjacent) after those of another: long levels, neighbours numbered far apart
static void colourOrder(Rng&r,GMesh&gm) { Geo G(gm); int n=gm.el.size(); std::vector<int> col(n,-1),ord(n),by; std::iota(ord.begin(),ord.end(),0); if(r.p(0.5)) r.shuffle(ord); for(int e:ord) { std::set<int> used; for(int f:G.cf[e]) { int o=G.f[f].L==e?G.f[f].R:G.f[f].L; if(o>=0&&col[o]>=0) used.insert(col[o]); } int c=0; while(used.count(c)) c++; col[e]=c; } std::stable_sort(ord.begin(),ord.end(),[&](int a,int b) { return col[a]<col[b]; }); std::vector<std::vector<int>> el; std::vector<int> reg; for(int e:ord) { el.push_back(gm.el[e]); reg.push_back(gm.reg[e]); } gm.el=el; gm.reg=reg; }
static void mLevel(Rng&r) {
	MOpt o=mopt(r); if(r.p(0.2)) o.nmax=14; if(r.p(0.02)) { o.nmin=18; o.nmax=45; } GMesh gm=genMesh(r,o);
	if(r.p(0.3)) { colourOrder(r,gm); gm.desc+=" ordered by colours"; }
	Geo G(gm); rep.at(rep.cur+" "+gm.desc); bool reord=r.p(0.3); static const std::vector<std::string> ords={"rcm","nd","qmd","1wd"}; if(reord) PetscOptionsSetValue(NULL,"-mesh_reorder",r.pick(ords).c_str()); LMesh L; bool b=L.build(gm,G,meshFile(gm)); if(reord) PetscOptionsClearValue(NULL,"-mesh_reorder"); if(!b) return; const Mesh&m=*L.m; int ne=m.gnelem(); std::vector<fint> lv=levelSchedule<freal>(m);
	auto adj=[&](int a,int c) { for(int f:G.cf[L.cell[a]]) if((G.f[f].L==L.cell[c]||G.f[f].R==L.cell[c])) return true; return false; };
	if(lv.size()<2||lv.front()!=0||lv.back()!=ne) { rep.viol("levels:ends","%zu entries from %d to %d for %d cells",lv.size(),lv.empty()?-1:(int)lv.front(),lv.empty()?-1:(int)lv.back(),ne); return; }
	for(size_t k=0;k+1<lv.size();k++) { if(!(lv[k]<lv[k+1])) { rep.viol("levels:empty","level %zu is [%d,%d)",k,(int)lv[k],(int)lv[k+1]); return; } for(int a=lv[k];a<lv[k+1];a++) for(int f:G.cf[L.cell[a]]) { int og=G.f[f].L==L.cell[a]?G.f[f].R:G.f[f].L; if(og<0) continue; for(int c=lv[k];c<lv[k+1];c++) if(L.cell[c]==og) { rep.viol("levels:dependent","cells %d and %d of level %zu share a face",a,c,k); return; } }
		if(k) { bool dep=false; for(int a=lv[k-1];a<lv[k]&&!dep;a++) dep=adj(a,lv[k]); if(!dep) { rep.viol("levels:needless","level %zu starts at cell %d which shares no face with a cell of the level before",k,(int)lv[k]); return; } } }
	rep.eval(hashs(gm.desc)+ne,ne>1); rep.count("levels",lv.size()-1); rep.count("cells",ne); rep.sample(gm.desc+sf(" levels %zu",lv.size()-1)); }

// ------------------------------------------------------------------ periodic boundaries
static void mPeriodic(Rng&r) {
	if(mpiSize()>1) return; MOpt o=mopt(r); o.nmin=1; o.nmax=9; o.kind=0; o.affine=false; o.renumber=false; o.perturb=r.p(0.7); o.scale=r.p(0.5); int axis=r.i(0,1),mark=r.i(1,60); int base=r.p(0.5)?100:70; o.tags={base,base+1,base+2,base+3,base+4}; GMesh gm=genMesh(r,o);
	// sides with the constant coordinate `axis' become periodic: x: tags[3] and tags[1]; y: tags[0] and tags[2]
	int mark2=r.p(0.3)?mark%60+1:-1; // the other two sides as well
	std::set<int> side; auto isPer=[&](int t,int ax) { return ax==0?(t==base+3||t==base+1):(t==base||t==base+2); };
	for(auto&b:gm.bf) { if(b.tag==(axis==0?base+1:base+2)) { side.insert(b.a); side.insert(b.b); } if(isPer(b.tag,axis)) b.tag=mark; else if(mark2>0&&isPer(b.tag,1-axis)) b.tag=mark2; } double sx=r.p(0.3)?0:r.u(-3,3),sy=r.p(0.3)?0:r.u(-3,3); for(auto&p:gm.p) { p[0]+=sx; p[1]+=sy; }
	bool jit=r.p(0.4); double jm=pow(10,r.u(-16,-9.5)); if(jit) for(int k:side) gm.p[k][1-axis]+=jm*r.u(-1,1); // opposite points agree to the accuracy of a mesh generator only
	std::vector<int> pn(gm.p.size()); for(size_t k=0;k<pn.size();k++) pn[k]=k; r.shuffle(pn); { std::vector<P2> q(pn.size()); for(size_t k=0;k<pn.size();k++) q[pn[k]]=gm.p[k]; gm.p=q; for(auto&e:gm.el) for(int&v:e) v=pn[v]; for(auto&b:gm.bf) { b.a=pn[b.a]; b.b=pn[b.b]; if(r.p(0.5)) std::swap(b.a,b.b); } r.shuffle(gm.bf); r.shuffle(gm.el); }
	Geo G(gm); bool viaOpts=r.p(0.4); std::string desc=gm.desc+sf(" periodic marker %d axis %d other marker %d%s%s",mark,axis,mark2,jit?" jitter":"",viaOpts?" through the options":""); rep.at(rep.cur+" "+desc); std::string file=meshFile(gm); LMesh L; if(!L.build(gm,G,file)) return; Mesh&m=*L.m; int nb=m.gnbface(),ne=m.gnelem(); std::vector<std::array<int,4>> b4(m.gnaface()); for(int f=0;f<m.gnaface();f++) for(int k=0;k<4;k++) b4[f][k]=m.gintfac(f,k);
	bool none=r.p(0.1); if(none) { Quiet q; if(r.p(0.5)) m.compute_periodic_map(-1,axis); else m.compute_periodic_map(r.p(0.5)?mark:69,r.p(0.5)?-1:axis); for(int f=0;f<m.gnaface();f++) if(m.gintfac(f,1)!=b4[f][1]&&!(f<nb&&m.gbtags(f,0)==mark)) { rep.viol("periodic:unrequested","face %d",f); return; } rep.eval(hashs(desc)); rep.count("nothing to pair"); return; }
	std::vector<std::pair<int,int>> prs={{mark,axis}}; if(mark2>0) prs.push_back({mark2,1-axis}); if(r.p(0.5)) std::reverse(prs.begin(),prs.end());
	if(viaOpts) { // the solver's own set-up of the mesh from the options
		FlowParserOptions po; bool suff=r.p(0.3); std::string mf=file; std::string sx; if(suff) { size_t d=mf.rfind('.'); sx=mf.substr(d); mf=mf.substr(0,d); } po.meshfile=mf; for(int t=base;t<base+5;t++) { FlowBCConfig c; c.bc_tag=t; c.bc_type=r.p(0.5)?SLIP_WALL_BC:FARFIELD_BC; c.bc_opts={r.p(0.5)?mark:0,r.i(0,1)}; po.bcconf.push_back(c); } for(auto&q:prs) { FlowBCConfig c; c.bc_tag=q.first; c.bc_type=PERIODIC_BC; c.bc_opts={q.first,q.second}; po.bcconf.push_back(c); } for(int k=po.bcconf.size()-1;k>0;k--) std::swap(po.bcconf[k],po.bcconf[r.i(0,k)]);
		Quiet q; m=constructMeshFlow(po,sx); if(m.gnaface()!=(int)b4.size()||m.gnelem()!=ne||m.gnbface()!=nb) { rep.viol("periodic:other-mesh","%d faces, expected %zu",(int)m.gnaface(),b4.size()); return; } rep.count("through the options"); }
	else for(auto&q:prs) m.compute_periodic_map(q.first,q.second);
	auto isp=[&](int f) { for(auto&q:prs) if(f<nb&&m.gbtags(f,0)==q.first) return true; return false; };
	for(int f=0;f<m.gnaface();f++) for(int k=0;k<4;k++) if((k!=1||!isp(f))&&m.gintfac(f,k)!=b4[f][k]) { rep.viol("periodic:other-face-changed","face %d entry %d: %d, before %d",f,k,(int)m.gintfac(f,k),b4[f][k]); return; }
	auto mid=[&](int f,int d) { return 0.5*(m.gcoords(m.gintfac(f,2),d)+m.gcoords(m.gintfac(f,3),d)); };
	std::vector<int> per;
	for(auto&pr:prs) { int ax=pr.second; per.clear(); for(int f=0;f<nb;f++) if(m.gbtags(f,0)==pr.first) per.push_back(f);
	for(int f:per) { int best=-1; double db=1e300; for(int g:per) { if(g==f) continue; double d=std::fabs(mid(f,1-ax)-mid(g,1-ax)); if(std::fabs(mid(f,ax)-mid(g,ax))>1e-6*std::fabs(mid(f,ax)-mid(g,ax)+1)&&d<db) { db=d; best=g; } } int got=m.gintfac(f,1); if(got<0||got>=ne) { rep.viol("periodic:unpaired","face %d at (%.6g,%.6g): right cell %d, expected %d",f,mid(f,0),mid(f,1),got,best<0?-1:(int)m.gintfac(best,0)); return; } if(best<0||got!=m.gintfac(best,0)) { rep.viol("periodic:wrong-partner","face %d at (%.6g,%.6g): right cell %d, the face across has cell %d",f,mid(f,0),mid(f,1),got,best<0?-1:(int)m.gintfac(best,0)); return; } if(m.gintfac(best,1)!=m.gintfac(f,0)) { rep.viol("periodic:not-mutual","faces %d and %d",f,best); return; } rep.count("periodic faces paired"); } }
	rep.eval(hashs(desc)+per.size()); rep.count(axis?"axis 1":"axis 0"); rep.sample(desc); }

int main(int argc,char**argv) { std::string m=argv[1]; Petsc P(argc,argv); runCases([&](Rng&r,long) { if(m=="topo") mTopo(r,false); else if(m=="metric") mTopo(r,true); else if(m=="part") mPart(r); else if(m=="trace") mTrace(r); else if(m=="order") { if(r.p(0.8)) mOrder(r); else mPerm(r); } else if(m=="level") mLevel(r); else if(m=="periodic") mPeriodic(r); }); }
