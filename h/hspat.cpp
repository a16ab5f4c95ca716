// Spatial discretisation monitors (serial, threaded and multi-process): argv[1] selects what is asserted.
#include "fv.hpp"
using namespace vf;
namespace vf { Rep rep; AsFound asFound; }
static const std::vector<int> kAll={B_SLIP,B_FAR,B_INOUT,B_SUBIN,B_EXTRAP,B_ADIA,B_ISO}, kInv={B_SLIP,B_FAR,B_INOUT,B_SUBIN,B_EXTRAP}, kFree={B_FAR,B_INOUT,B_EXTRAP};
static MOpt mopt(Rng&r) { MOpt o; o.nmin=1; o.nmax= mpiSize()>1? 8:7; if(mpiSize()>1) o.nmin=3; if(r.p(0.1)) o.nmin=o.nmax=mpiSize()>1?3:r.i(1,2); return o; }
static U4 rnd4(Rng&r,int n) { U4 x(n); for(auto&q:x) for(double&v:q) v=r.u(-1,1); return x; }

// residual and time step against the reference, initial contents accumulated, state untouched
static void mResidual(Rng&r,long,bool onlydt) {
	Case c; c.gm=genMesh(r,mopt(r)); c.setGeo(); rndConf(r,c,kAll,40,0.6); c.conf(); double amp=r.p(0.3)?r.u(0.2,0.5):r.lu(1e-3,0.2); int type=r.p(0.5)?1:0; setState(r,c,amp,type); c.desc=c.describe()+sf(" amp=%.3g type%d",amp,type); rep.at(rep.cur+" "+c.desc);
	RefRes R=refResidual(c,c.u); rep.count(R.bad?"inadmissible face states (skipped)":"residuals compared");
	if(R.bad) { if(mpiSize()==1) return; }
	Lib L; L.mesh(c); if(!L.ok) return; L.disc(c); if(R.bad) return; L.set(c.u); std::vector<double> u0=L.get(L.u);
	VecSet(L.dt,-7.5); bool gdt=onlydt||r.p(0.5); std::vector<double> init(L.lm.cell.size()*4,0); bool acc=r.p(0.3); U4 add=rnd4(r,c.gm.el.size());
	VecSet(L.r,0); if(acc) { for(size_t e=0;e<L.lm.cell.size();e++) for(int i=0;i<4;i++) init[4*e+i]=add[L.lm.cell[e]][i]*R.scale[L.lm.cell[e]][i]; L.put(L.r,init); }
	int ierr=L.s->compute_residual(L.u,L.r,gdt,L.dt); if(ierr) rep.viol("residual-error-code","%d",ierr);
	std::vector<double> res=L.get(L.r),dt=L.get(L.dt),u1=L.get(L.u);
	if(std::memcmp(u0.data(),u1.data(),8*u0.size())) rep.viol("residual-modifies-state","%s",c.desc.c_str());
	std::string tag=sf("%s",c.o2?"order2":"order1");
	for(size_t e=0;e<L.lm.cell.size();e++) { int k=L.lm.cell[e]; if(R.skip[k]) { rep.count("cells at a boundary switch (skipped)"); continue; }
		if(!onlydt) for(int i=0;i<4;i++) { double got=res[4*e+i]-init[4*e+i],ex=-R.r[k][i],er=std::fabs(got-ex)/R.scale[k][i]; rep.maxi("residual error "+tag,er); if(!(er<=1e-8)) { rep.viol("residual:"+tag,"cell %d variable %d: got %.15g expected %.15g (scale %.3g)%s",k,i,got,ex,R.scale[k][i],acc?" with previous contents":""); break; } }
		if(gdt) { double er=std::fabs(dt[e]-R.dt[k])/R.dt[k]; rep.maxi("time step error",er); if(!(er<=1e-8)||!(dt[e]>0)||!std::isfinite(dt[e])) rep.viol("timestep:"+tag+(c.visc?"-viscous":""),"cell %d got %.15g expected %.15g",k,dt[e],R.dt[k]); }
		else if(dt[e]!=-7.5) rep.viol("timestep-unrequested","cell %d time step written (%g) though not requested",k,dt[e]); }
	for(int rp=0;rp<1;rp++) { // repeated evaluation gives the same values
		L.residual(false); std::vector<double> r2=L.get(L.r); for(size_t k=0;k<r2.size();k++) { double sc=R.scale[L.lm.cell[k/4]][k%4]; if(!R.skip[L.lm.cell[k/4]]&&!(std::fabs(r2[k]-(res[k]-init[k]))<=1e-12*sc*10)) { rep.viol("residual-not-repeatable","entry %zu %.15g then %.15g",k,res[k]-init[k],r2[k]); break; } } }
	rep.eval(mix(hashs(c.desc),hashd(c.u[0].data(),4*c.u.size())),c.gm.el.size()>1); rep.count(std::string("flux ")+fluxName[c.flux]); if(c.o2) rep.count(std::string("reconstruction ")+recName[c.rec]); rep.count("cells",L.lm.cell.size()); for(auto&b:c.bc) rep.count(std::string("boundary ")+bcnm[b.second.kind]); rep.sample(c.desc);
}
// every boundary face uses the condition of its own marker: first-order inviscid residuals from the library's own flux and the documented ghost states
static void mGhost(Rng&r,long) {
	Case c; c.gm=genMesh(r,mopt(r)); c.setGeo(); rndConf(r,c,kAll,0,0); c.o2=false; c.visc=false; c.conf(); double amp=r.p(0.3)?r.u(0.2,0.5):r.lu(1e-3,0.2); setState(r,c,amp,r.p(0.5)?1:0); c.desc=c.describe()+sf(" amp=%.3g",amp); rep.at(rep.cur+" "+c.desc);
	RefRes R=refResidual(c,c.u); if(R.bad) { rep.count("inadmissible states (skipped)"); if(mpiSize()==1) return; } Lib L; L.mesh(c); if(!L.ok) return; L.disc(c); if(R.bad) return; L.set(c.u); L.residual(false); std::vector<double> res=L.get(L.r);
	IdealGasPhysics<freal> phy(c.G.g,c.G.M,c.G.Tinf,c.G.Re,c.G.Pr); std::unique_ptr<const InviscidFlux<freal>> fx; { fx.reset(create_const_inviscidflux<freal>(fluxName[c.flux],&phy)); } int ne=c.gm.el.size(); U4 ex(ne,{{0,0,0,0}}); std::vector<std::set<int>> kd(ne);
	for(const Geo::F&F:c.geo->f) { double n[2]={F.nx,F.ny},g[4],fl[4],mg; const double*b; if(F.R<0) { const BCd&q=c.bc.at(F.tag); rGhost(q,c.G,c.u[F.L].data(),n,g,&mg); b=g; kd[F.L].insert(F.tag); } else b=c.u[F.R].data(); fx->get_flux(c.u[F.L].data(),b,n,fl); for(int i=0;i<4;i++) { ex[F.L][i]-=F.len*fl[i]; if(F.R>=0) ex[F.R][i]+=F.len*fl[i]; } }
	for(size_t e=0;e<L.lm.cell.size();e++) { int k=L.lm.cell[e]; if(kd[k].empty()) continue; if(R.skip[k]) { rep.count("cells at a boundary switch (skipped)"); continue; } rep.count("boundary cells"); for(int i=0;i<4;i++) { double er=std::fabs(res[4*e+i]-ex[k][i])/R.scale[k][i]; rep.maxi("boundary cell residual error",er); if(!(er<=1e-8)) { std::string nm,kk; for(int t:kd[k]) { nm+=sf(" %d:%s",t,bcnm[c.bc.at(t).kind]); kk=bcnm[c.bc.at(t).kind]; } rep.viol("ghost:face-condition","cell %d with markers%s variable %d: got %.15g, expected %.15g with the conditions of these markers",k,nm.c_str(),i,res[4*e+i],ex[k][i]); return; } } }
	rep.eval(mix(hashs(c.desc),hashd(c.u[0].data(),4*c.u.size())),ne>1); for(auto&b:c.bc) { rep.count(std::string("boundary ")+bcnm[b.second.kind]); if(b.first>=65536) rep.count("markers above 65535"); } rep.sample(c.desc);
}
static void mFree(Rng&r,long) {
	Case c; c.gm=genMesh(r,mopt(r)); c.setGeo(); rndConf(r,c,kFree,40,0.7); c.conf(); setState(r,c,0,2); c.desc=c.describe(); rep.at(rep.cur+" "+c.desc);
	Lib L; L.mesh(c); if(!L.ok) return; L.disc(c); L.set(c.u); L.residual(false); std::vector<double> res=L.get(L.r); double v=1+1/c.G.M; double worst=0;
	for(size_t e=0;e<L.lm.cell.size();e++) { int k=L.lm.cell[e]; double per=0; for(int f:c.geo->cf[k]) per+=c.geo->f[f].len; double minl=std::sqrt(c.geo->area[k]); double vis=c.visc? 3/c.G.Re*(1+1/(c.G.M*c.G.M*(c.G.g-1)))*per/minl*v : 0; double sc[4]={per*v,per*v*v,per*v*v,per*v*v*v}; for(int i=0;i<4;i++) { double er=std::fabs(res[4*e+i])/(sc[i]+vis); worst=std::max(worst,er); if(!(er<=1e-11)) { rep.viol(std::string("freestream:")+(c.o2?"order2":"order1")+(c.visc?"-viscous":""),"cell %d variable %d residual %.6g (scale %.3g)",k,i,res[4*e+i],sc[i]+vis); return; } } }
	rep.maxi("largest relative free-stream residual",worst); rep.eval(hashs(c.desc)); rep.count(std::string("flux ")+fluxName[c.flux]); if(c.o2) rep.count(std::string(recName[c.rec])+"/"+gradName[c.grad]); rep.count("cells",L.lm.cell.size()); rep.sample(c.desc); }
// sum over all cells equals minus the flux through physical boundaries; deep-interior changes leave it alone
static void mCons(Rng&r,long) {
	MOpt o=mopt(r); o.nmin=o.nmax; o.nmax=11; if(r.p(0.3)) o=mopt(r); Case c; c.gm=genMesh(r,o); c.setGeo(); rndConf(r,c,kAll,40,0.6); c.conf(); setState(r,c,r.lu(1e-3,0.2),r.i(0,1)); c.desc=c.describe(); rep.at(rep.cur+" "+c.desc);
	RefRes R=refResidual(c,c.u); Lib L; L.mesh(c); if(!L.ok) return; L.disc(c); if(R.bad) return; 
	// exact pairwise sums, gathered over the ranks
	auto total=[&](double*S,double*A) { L.set(c.u); L.residual(false); std::vector<double> res=L.get(L.r); double s[8]={0}; for(size_t e=0;e<L.lm.cell.size();e++) for(int i=0;i<4;i++) { s[i]+=res[4*e+i]; s[4+i]+=std::fabs(res[4*e+i]); } double g[8]; MPI_Allreduce(s,g,8,MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); for(int i=0;i<4;i++) { S[i]=g[i]; A[i]=g[4+i]; } };
	double S0[4],A0[4],B[4]={0},sc[4]={0}; total(S0,A0); for(size_t f=0;f<c.geo->f.size();f++) if(c.geo->f[f].R<0) for(int i=0;i<4;i++) B[i]+=R.facef[f][i]; bool sk=false; for(char x:R.skip) sk=sk||x; for(auto&q:R.scale) for(int i=0;i<4;i++) sc[i]+=q[i];
	if(!sk) for(int i=0;i<4;i++) { double er=std::fabs(S0[i]+B[i])/sc[i]; rep.maxi("summed residual vs boundary flux",er); if(!(er<=1e-9)) rep.viol("conservation:boundary-sum","variable %d: residual sum %.15g, boundary outflow %.15g (scale %.3g)",i,S0[i],B[i],sc[i]); }
	// distance from the boundary in cell layers
	int ne=c.gm.el.size(); std::vector<int> d(ne,1<<20); std::vector<int> q; for(auto&f:c.geo->f) if(f.R<0&&d[f.L]) { d[f.L]=0; q.push_back(f.L); } for(size_t h=0;h<q.size();h++) for(int f:c.geo->cf[q[h]]) { int o2=c.geo->f[f].L==q[h]?c.geo->f[f].R:c.geo->f[f].L; if(o2>=0&&d[o2]>d[q[h]]+1) { d[o2]=d[q[h]]+1; q.push_back(o2); } }
	int need=c.o2?(c.rec==RC_WENO?3:2):1; if(c.visc&&c.o2) need++; int ch=0; for(int e=0;e<ne;e++) if(d[e]>=need) { double w[4]; for(double&x:w) x=r.u(-0.05,0.05); double*U=c.u[e].data(); double p=rP(c.G,U); toCons(c.G,U[0]*(1+w[0]),U[1]/U[0]+w[1]/c.G.M,U[2]/U[0]+w[2]/c.G.M,p*(1+w[3]),U); ch++; }
	bool bad2=refResidual(c,c.u).bad; if(ch&&!bad2) { double S1[4],A1[4]; total(S1,A1); rep.count("cells changed in the interior",ch); for(int i=0;i<4;i++) { double er=std::fabs(S1[i]-S0[i])/sc[i]; rep.maxi("change of the summed residual",er); if(!(er<=1e-11)) rep.viol("conservation:interior-change","variable %d: sum %.15g before, %.15g after changing %d interior cells (scale %.3g)",i,S0[i],S1[i],ch,sc[i]); } }
	rep.eval(hashs(c.desc),ne>1); rep.count("cells",ne); rep.sample(c.desc); }
// gradients through the discretisation's own entry point and the gradient-scheme objects
template<int NV> static void mGrad(Rng&r) {
	GMesh gm=genMesh(r,mopt(r)); Geo G(gm); rep.at(rep.cur+" "+gm.desc); LMesh L; if(!L.build(gm,G,meshFile(gm))) return; Ref R(gm,G); const UMesh<freal,2>&m=*L.m;
	int ne=R.ne; int ncl=m.gnelem(),ncn=m.gnConnFace(); double a[NV][3]; for(auto&q:a) for(double&x:q) x=r.u(-2,2); int type=r.i(0,2); // 0 affine 1 random 2 constant
	double ext=0; for(auto&p:gm.p) ext=std::max({ext,std::fabs(p[0]-gm.p[0][0]),std::fabs(p[1]-gm.p[0][1])});
	std::vector<double> u(ne*NV),ug(R.nb*NV); auto fld=[&](const P2&x,int k) { return type==0? a[k][0]+(a[k][1]*(x[0]-gm.p[0][0])+a[k][2]*(x[1]-gm.p[0][1]))/ext : type==2? a[k][0] : r.u(-1,1); };
	for(int e=0;e<ne;e++) for(int k=0;k<NV;k++) u[e*NV+k]=fld(G.cc[e],k); for(int b=0;b<R.nb;b++) for(int k=0;k<NV;k++) ug[b*NV+k]=fld(R.gc[b],k);
	// library arrays: cells, connectivity ghosts, boundary ghosts
	std::vector<double> rc(2*(ncl+ncn)),lu(NV*(ncl+ncn)),rcb(2*std::max(1,(int)m.gnbface())),lug(NV*std::max(1,(int)m.gnbface()));
	auto setc=[&](int slot,int cell) { rc[2*slot]=G.cc[cell][0]; rc[2*slot+1]=G.cc[cell][1]; for(int k=0;k<NV;k++) lu[NV*slot+k]=u[NV*cell+k]; };
	for(int e=0;e<ncl;e++) setc(e,L.cell[e]); for(int q=0;q<ncn;q++) { int lf=m.gConnBFaceStart()+q,f=L.face[lf],me=L.cell[m.gintfac(lf,0)]; setc(ncl+q,G.f[f].L==me?G.f[f].R:G.f[f].L); }
	std::vector<int> lb(m.gnbface()); for(int b=0;b<m.gnbface();b++) { int f=L.face[m.gPhyBFaceStart()+b]; int gb=-1-G.f[f].R; lb[b]=gb; rcb[2*b]=R.gc[gb][0]; rcb[2*b+1]=R.gc[gb][1]; for(int k=0;k<NV;k++) lug[NV*b+k]=ug[NV*gb+k]; }
	for(int sch=0;sch<3;sch++) { std::unique_ptr<const GradientScheme<freal,NV>> S(create_const_gradientscheme<freal,NV>(gradName[sch],&m,rc.data(),rcb.data()));
		std::vector<double> out(2*NV*(ncl+ncn),r.p(0.5)?3.25:0.); std::vector<double> guard(out.begin()+2*NV*ncl,out.end()); S->compute_gradients(amat::Array2dView<freal>(lu.data(),ncl+ncn,NV),amat::Array2dView<freal>(lug.data(),m.gnbface(),NV),out.data());
		if(!std::equal(guard.begin(),guard.end(),out.begin()+2*NV*ncl)) rep.viol(std::string("gradient-writes-ghosts:")+gradName[sch],"entries of connectivity ghost cells changed");
		auto g=R.grad(sch,u,ug,NV);
		for(int e=0;e<ncl;e++) { int c=L.cell[e]; double h=std::sqrt(G.area[c]); double dmin=1e300; for(int f:G.cf[c]) { P2 d=R.dr(f); dmin=std::min(dmin,std::hypot(d[0],d[1])); } double cd=sch==GR_LSQ?R.cond[c]:1+10*std::pow(h/dmin,2); double per=0; for(int f:G.cf[c]) per+=G.f[f].len; double sc=2*(sch==GR_LSQ? 1/dmin : per/G.area[c])*(1+cd);
			for(int k=0;k<NV;k++) for(int d=0;d<2;d++) { double got=out[2*NV*e+2*k+d],ex=g[c*NV+k][d]; double er=std::fabs(got-ex)/(sc*5); rep.maxi(std::string("gradient error ")+gradName[sch],er); if(!(er<=1e-11)) { rep.viol(std::string("gradient:")+gradName[sch],"nvars %d cell %d variable %d direction %d: got %.15g expected %.15g (scale %.3g)",NV,c,k,d,got,ex,sc*5); return; }
				if(type==0&&sch==GR_LSQ) { double xx=a[k][1+d]/ext; double e2=std::fabs(got-xx)/(sc*5); rep.maxi("affine exactness error",e2); if(!(e2<=1e-10)) { rep.viol("gradient-affine-exactness","cell %d variable %d: got %.15g exact %.15g (scale %.3g)",c,k,got,xx,sc*5); return; } }
				if(type==2&&sch!=GR_NONE) if(!(std::fabs(got)<=1e-11*sc*5)) { rep.viol(std::string("gradient-constant:")+gradName[sch],"cell %d: gradient of a constant is %g",c,got); return; }
				if(sch==GR_NONE&&got!=0) { rep.viol("gradient-zero-scheme","cell %d: %g",c,got); return; } } }
		rep.eval(mix(hashs(gm.desc),hashd(u.data(),u.size())+sch),ne>1); rep.count(std::string(gradName[sch])+sf(" nvars %d",NV)); }
	rep.count("cells",ncl); rep.sample(gm.desc); }
static void mGradFlow(Rng&r) { // getGradients of the flow discretisation: gradients of conserved variables with boundary-condition ghosts
	Case c; c.gm=genMesh(r,mopt(r)); c.setGeo(); rndConf(r,c,kAll,0,1); c.conf(); setState(r,c,r.lu(1e-2,0.3),r.i(0,1)); c.desc=c.describe(); rep.at(rep.cur+" getGradients "+c.desc); Lib L; L.mesh(c); if(!L.ok) return; L.disc(c); L.set(c.u);
	std::vector<GradBlock_t<freal,NDIM,4>> g(L.lm.cell.size()+L.lm.m->gnConnFace()); L.s->getGradients(L.u,g.data()); Ref R(c.gm,*c.geo); std::vector<double> u(4*R.ne),ug(4*R.nb); for(int e=0;e<R.ne;e++) for(int i=0;i<4;i++) u[4*e+i]=c.u[e][i]; std::vector<char> sk(R.ne,0); for(int b=0;b<R.nb;b++) { const Geo::F&F=c.geo->f[R.bidx[b]]; double n[2]={F.nx,F.ny},mg; rGhost(c.bc.at(F.tag),c.G,c.u[F.L].data(),n,&ug[4*b],&mg); if(mg<1e-9) sk[F.L]=1; if(!std::isfinite(ug[4*b]+ug[4*b+1]+ug[4*b+2]+ug[4*b+3])) sk[F.L]=1; }
	auto rg=R.grad(c.grad,u,ug,4); double v=2+1/c.G.M; double S[4]={2,2*v,2*v,3*v*v}; for(auto&q:c.u) S[3]=std::max(S[3],3*q[3]);
	for(size_t e=0;e<L.lm.cell.size();e++) { int k=L.lm.cell[e]; if(sk[k]) continue; double dmin=1e300,per=0; for(int f:c.geo->cf[k]) { P2 d=R.dr(f); dmin=std::min(dmin,std::hypot(d[0],d[1])); per+=c.geo->f[f].len; } double sc=(1/dmin+per/c.geo->area[k])*(1+R.cond[k]); double gm=1; for(int f:c.geo->cf[k]) if(c.geo->f[f].R<0) for(int i=0;i<4;i++) gm=std::max(gm,std::fabs(ug[4*(-1-c.geo->f[f].R)+i])); for(int i=0;i<4;i++) for(int d=0;d<2;d++) { double er=std::fabs(g[e](d,i)-rg[4*k+i][d])/(sc*(S[i]+gm)); rep.maxi("getGradients error",er); if(!(er<=1e-10)) { rep.viol("gradient-of-conserved","cell %d variable %d: got %.15g expected %.15g",k,i,g[e](d,i),rg[4*k+i][d]); return; } } }
	rep.eval(hashs(c.desc)); rep.count("getGradients calls"); }
template<int NV> static void mRecon(Rng&r) {
	GMesh gm=genMesh(r,mopt(r)); Geo G(gm); rep.at(rep.cur+" "+gm.desc); LMesh L; if(!L.build(gm,G,meshFile(gm))) return; Ref R(gm,G); const UMesh<freal,2>&m=*L.m; int ne=R.ne,ncl=m.gnelem(),ncn=m.gnConnFace(),nbl=m.gnbface(),nfl=m.gnaface();
	int type=r.i(0,3); double base=r.u(-5,5),amp=r.lu(1e-3,10); std::vector<double> u(ne*NV),ug(R.nb*NV); std::vector<std::array<double,2>> g(ne*NV); double ext=0; for(auto&p:gm.p) ext=std::max({ext,std::fabs(p[0]-gm.p[0][0]),std::fabs(p[1]-gm.p[0][1])}); double ax=r.u(-1,1),ay=r.u(-1,1),sx=gm.p[0][0],sy=gm.p[0][1];
	auto f=[&](const P2&x,int k) { double X=(x[0]-sx)/ext,Y=(x[1]-sy)/ext; return type==0?base+k: type==1? base+amp*(ax*X+ay*Y)*(1+k) : type==2? base+amp*std::sin(3*X*(k+1)+2*Y) : base+amp*r.u(-1,1); };
	for(int e=0;e<ne;e++) for(int k=0;k<NV;k++) u[e*NV+k]=f(G.cc[e],k); for(int b=0;b<R.nb;b++) for(int k=0;k<NV;k++) ug[b*NV+k]=f(R.gc[b],k); int gs=r.i(1,2); if(type==3&&r.p(0.3)) { for(auto&x:g) for(int d=0;d<2;d++) x[d]=amp/ext*r.u(-5,5); } else g=R.grad(gs,u,ug,NV);
	if(type==0) for(auto&x:g) x={{0,0}};
	std::vector<double> rc(2*(ncl+ncn)),rcb(2*std::max(1,nbl)),lug(NV*std::max(1,nbl)),lg(2*NV*(ncl+ncn)); MVector<freal> lu(ncl+ncn,NV); amat::Array2d<freal> gr(nfl,2);
	auto setc=[&](int s,int c) { for(int d=0;d<2;d++) rc[2*s+d]=G.cc[c][d]; for(int k=0;k<NV;k++) { lu(s,k)=u[NV*c+k]; for(int d=0;d<2;d++) lg[2*NV*s+2*k+d]=g[NV*c+k][d]; } };
	for(int e=0;e<ncl;e++) setc(e,L.cell[e]); for(int q=0;q<ncn;q++) { int lf=m.gConnBFaceStart()+q,ff=L.face[lf],me=L.cell[m.gintfac(lf,0)]; setc(ncl+q,G.f[ff].L==me?G.f[ff].R:G.f[ff].L); }
	for(int b=0;b<nbl;b++) { int gb=-1-G.f[L.face[m.gPhyBFaceStart()+b]].R; for(int d=0;d<2;d++) rcb[2*b+d]=R.gc[gb][d]; for(int k=0;k<NV;k++) lug[NV*b+k]=ug[NV*gb+k]; }
	for(int q=0;q<nfl;q++) for(int d=0;d<2;d++) gr(q,d)=R.mid[L.face[q]][d];
	for(int rec=0;rec<5;rec++) { double par=rec==RC_WENO?r.lu(1,1e3):r.lu(0.05,20); std::unique_ptr<const SolutionReconstruction<freal,NV>> S(create_const_reconstruction<freal,NV>(recName[rec],&m,rc.data(),rcb.data(),gr,par));
		amat::Array2d<freal> fl(nfl,NV),fr(nfl,NV); for(int q=0;q<nfl;q++) for(int k=0;k<NV;k++) fl(q,k)=fr(q,k)=1e200;
		S->compute_face_values(lu,amat::Array2dView<freal>(lug.data(),nbl,NV),lg.data(),amat::Array2dMutableView<freal>(&fl(0,0),nfl,NV),amat::Array2dMutableView<freal>(&fr(0,0),nfl,NV));
		std::vector<double> ul,ur; R.recon(rec,par,u,ug,g,NV,ul,ur);
		for(int q=0;q<nfl;q++) { int ff=L.face[q]; bool conn=q>=m.gConnBFaceStart()&&q<m.gConnBFaceEnd(),bnd=q<m.gPhyBFaceEnd()&&q>=m.gPhyBFaceStart(); int cl=L.cell[m.gintfac(q,0)]; bool sw=G.f[ff].L!=cl;
			for(int side=0;side<2;side++) { if(side&&(conn||bnd)) continue; int cell=side?L.cell[m.gintfac(q,1)]:cl; for(int k=0;k<NV;k++) { double got=side?fr(q,k):fl(q,k),ex=((side==1)!=sw?ur:ul)[ff*NV+k]; double xs=std::fabs(base)+NV+amp*NV; double dd=0; for(int d=0;d<2;d++) dd+=std::fabs(g[cell*NV+k][d]*(R.mid[ff][d]-G.cc[cell][d])); double sc=xs+dd+1; if(rec==RC_VANALBADA||rec==RC_WENO) for(int fo:G.cf[cell]) { int o=G.f[fo].L==cell?G.f[fo].R:G.f[fo].L; P2 d=R.dr(fo); double t=0; for(int e2:{cell,o}) if(e2>=0) t=std::max(t,std::fabs(g[e2*NV+k][0]*d[0])+std::fabs(g[e2*NV+k][1]*d[1])); sc+=2*t; }
				double tol=rec==RC_VANALBADA?1e-9:rec==RC_WENO?1e-10:1e-11; double er=std::fabs(got-ex)/sc; rep.maxi(std::string("face value error ")+recName[rec],er); if(!(er<=tol)) { rep.viol(std::string("reconstruction:")+recName[rec],"nvars %d face %d side %d variable %d: got %.15g expected %.15g",NV,ff,side,k,got,ex); return; }
				if(type==0&&!(std::fabs(got-u[cell*NV+k])<=1e-12*sc)) { rep.viol(std::string("reconstruction-constant:")+recName[rec],"got %.15g for constant %.15g",got,u[cell*NV+k]); return; }
				if(rec==RC_NONE&&type==1&&gs==GR_LSQ) { double xe=f(R.mid[ff],k); if(!(std::fabs(got-xe)<=1e-10*sc*(1+R.cond[cell]))) { rep.viol("reconstruction-linear-exact","got %.15g exact %.15g",got,xe); return; } }
				if(rec==RC_BJ) { double lo=u[cell*NV+k],hi=lo; for(int fo:G.cf[cell]) { int o=G.f[fo].L==cell?G.f[fo].R:G.f[fo].L; double v=o>=0?u[o*NV+k]:ug[(-1-o)*NV+k]; lo=std::min(lo,v); hi=std::max(hi,v); } if(!(got>=lo-1e-12*sc&&got<=hi+1e-12*sc)) { rep.viol("reconstruction-bounds:BARTHJESPERSEN","face value %.15g outside [%.15g, %.15g]",got,lo,hi); return; } } } } }
		rep.eval(mix(hashs(gm.desc),hashd(u.data(),u.size())+rec),ne>1); rep.count(std::string(recName[rec])+sf(" nvars %d",NV)); }
	rep.count("faces",nfl); rep.sample(gm.desc+sf(" field type %d",type)); }

int main(int argc,char**argv) {
	std::string m=argv[1]; Petsc P(argc,argv);
	runCases([&](Rng&r,long k) {
		if(m=="residual") mResidual(r,k,false); else if(m=="timestep") mResidual(r,k,true); else if(m=="free") mFree(r,k); else if(m=="ghost") mGhost(r,k); else if(m=="cons") mCons(r,k);
		else if(m=="grad") { if(k%4==0) mGradFlow(r); else if(k%4==1) mGrad<1>(r); else mGrad<4>(r); } else if(m=="recon") { if(k%4==0) mRecon<1>(r); else mRecon<4>(r); }
	});
}
