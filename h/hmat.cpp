// Operators: assembled Jacobian, matrix-free Jacobian, surface integrals, diffusion. argv[1] selects what is asserted.
#include "jac.hpp"
#include "spatial/diffusion.hpp"
using namespace vf;
namespace vf { Rep rep; AsFound asFound; }
static const std::vector<int> kAll={B_SLIP,B_FAR,B_INOUT,B_EXTRAP,B_ADIA,B_ISO};
static MOpt mopt(Rng&r) { MOpt o; o.nmin=1; o.nmax= mpiSize()>1? 7:6; if(mpiSize()>1) o.nmin=3; if(r.p(0.1)) o.nmin=o.nmax=mpiSize()>1?3:r.i(1,2); return o; }
static void put4(const Lib&L,Vec x,const U4&v) { std::vector<double> a(4*L.lm.cell.size()); for(size_t e=0;e<L.lm.cell.size();e++) for(int i=0;i<4;i++) a[4*e+i]=v[L.lm.cell[e]][i]; L.put(x,a); }
static void chk(int ierr,const char*what) { if(ierr) rep.viol(std::string("error-code:")+what,"%d",ierr); }

static void mMatrix(Rng&r) {
	Case c; c.gm=genMesh(r,mopt(r)); c.setGeo(); rndConf(r,c,kAll,40,0.3); c.conf(); setState(r,c,r.lu(1e-2,0.4),r.p(0.7)?1:0); c.desc=c.describe(); rep.at(rep.cur+" "+c.desc);
	Lib L; L.mesh(c); if(!L.ok) return; L.disc(c); L.set(c.u);
	Mat A; chk(setupSystemMatrix<4>(L.lm.m.get(),&A),"setupSystemMatrix"); Vec x,y; VecDuplicate(L.dt,&x); VecDestroy(&x); createSystemVector(L.lm.m.get(),4,&x); VecDuplicate(x,&y);
	std::vector<double> ub=L.get(L.u);
	auto assemble=[&]() { chk(L.s->assemble_jacobian(L.u,A),"assemble_jacobian"); MatAssemblyBegin(A,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A,MAT_FINAL_ASSEMBLY); };
	MatZeroEntries(A); assemble(); U4 v=rndDir(r,c); put4(L,x,v); chk(MatMult(A,x,y),"MatMult"); std::vector<double> g1=L.get(y);
	double w=checkJv(c,c.u,v,L.lm.cell,g1,"matrix:product",2e-9*std::max(1.,c.G.M*c.G.M/9),nullptr,fluxName[c.jflux]); if(w<0) { rep.count("inadmissible ghost states (skipped)"); } else { rep.maxi(std::string("matrix product error ")+fluxName[c.jflux],w);
		std::vector<double> ua=L.get(L.u); if(std::memcmp(ua.data(),ub.data(),8*ub.size())) rep.viol("matrix:state-modified","assembly changed the state");
		// reassembly at another state replaces; coming back gives the same
		Case d; d.gm=c.gm; U4 u0=c.u; setState(r,c,r.lu(1e-2,0.3),1); L.set(c.u); MatZeroEntries(A); assemble(); MatMult(A,x,y); std::vector<double> g2=L.get(y); w=checkJv(c,c.u,v,L.lm.cell,g2,"matrix:reassembled",2e-9*std::max(1.,c.G.M*c.G.M/9)); if(w>=0) rep.maxi("matrix product error after reassembly",w);
		c.u=u0; L.set(c.u); MatZeroEntries(A); assemble(); MatMult(A,x,y); std::vector<double> g3=L.get(y); RefJv s=refJv(c,c.u,v); for(size_t k=0;k<g3.size();k++) if(!(std::fabs(g3[k]-g1[k])<=1e-12*s.scale[L.lm.cell[k/4]][k%4])) { rep.viol("matrix:not-repeatable","entry %zu: %.15g then %.15g",k,g1[k],g3[k]); break; }
		rep.eval(mix(hashs(c.desc),hashd(c.u[0].data(),4*c.u.size())),c.gm.el.size()>1); rep.count(std::string("Jacobian flux ")+fluxName[c.jflux]); for(auto&b:c.bc) rep.count(std::string("boundary ")+bcnm[b.second.kind]); rep.sample(c.desc); }
	VecDestroy(&x); VecDestroy(&y); MatDestroy(&A); }


// matrix-free product: pseudo-time diagonal plus finite-difference directional derivative of the library's own residual
template<class Sp,class RES> static void matfreeCore(Rng&r,int NV,const Sp*sp,Mat A,const std::vector<int>&cell,int ncells,Vec u,Vec x,Vec y,Vec dt,RES resid,const std::vector<double>&rs,const std::string&desc,const std::function<void(std::vector<double>&)>&dir) {
	int nl=cell.size(); std::vector<double> u0(NV*nl),xv(NV*nl),md(nl); auto get=[&](Vec v) { PetscInt n; VecGetLocalSize(v,&n); const PetscScalar*a; VecGetArrayRead(v,&a); std::vector<double> q(a,a+n); VecRestoreArrayRead(v,&a); return q; }; auto put=[&](Vec v,const std::vector<double>&q) { PetscScalar*a; VecGetArray(v,&a); std::copy(q.begin(),q.end(),a); VecRestoreArray(v,&a); };
	u0=get(u); Vec rv; VecDuplicate(u,&rv); std::vector<double> r0=resid(u0); put(rv,r0); put(u,u0); VecGhostUpdateBegin(u,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(u,INSERT_VALUES,SCATTER_FORWARD);
	{ std::vector<double> g(ncells); uint64_t sd=r.next(); for(int e=0;e<ncells;e++) { Rng q(sd+e); g[e]=q.p(0.2)?0:q.lu(1e-2,1e3); } for(int e=0;e<nl;e++) md[e]=g[cell[e]]; } put(dt,md);
	for(int t=0;t<3;t++) {
		std::vector<double> dv; dir(dv); double sc=t==0?1:t==1?r.lu(1e-5,1e5):r.p(0.5)?r.lu(1e-11,1e-4):r.lu(1e3,1e9); for(int e=0;e<nl;e++) for(int i=0;i<NV;i++) xv[NV*e+i]=sc*dv[NV*cell[e]+i]; put(x,xv); double nrm; VecNorm(x,NORM_2,&nrm); VecSet(y,123.); chk(MatMult(A,x,y),"matrix-free product"); std::vector<double> g=get(y);
		if(nrm==0) continue; 
		// difference quotients of the residual along x at steps around the documented one
		std::vector<std::vector<double>> D; double st[4]={1e-7,-1e-7,3e-7,-3e-7}; for(double h:st) { std::vector<double> w(u0); for(size_t k=0;k<w.size();k++) w[k]+=h/nrm*xv[k]; std::vector<double> q=resid(w); for(size_t k=0;k<q.size();k++) q[k]=-(q[k]-r0[k])/(h/nrm); D.push_back(q); }
		{ put(u,u0); VecGhostUpdateBegin(u,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(u,INSERT_VALUES,SCATTER_FORWARD); }
		double worst=0; std::vector<double> tolr(NV*nl,1e300); for(int e=0;e<nl;e++) { double S[8]; bool kink=false; double row=0; for(int i=0;i<NV;i++) { int k=NV*e+i; row=std::max(row,std::fabs(D[0][k])/1.0); S[i]=0; for(auto&d:D) S[i]=std::max(S[i],std::fabs(d[k])); S[i]=1e-5*S[i]+2e-8*rs[k]*nrm; double lo=1e300,hi=-1e300; for(auto&d:D) { lo=std::min(lo,d[k]); hi=std::max(hi,d[k]); } if(hi-lo>1e-3*std::max(std::fabs(lo),std::fabs(hi))+20*S[i]) kink=true; S[i]+=hi-lo; }
			if(kink) { rep.count("cells at a kink of the residual (skipped)"); continue; } rep.count("rows compared"); for(int i=0;i<NV;i++) { int k=NV*e+i; double ex=md[e]*xv[k]+D[0][k]; tolr[k]=S[i]+1e-12*std::fabs(md[e]*xv[k]); double er=std::fabs(g[k]-ex)/tolr[k]; worst=std::max(worst,er); if(!(er<=3)) { rep.viol("matfree:product","cell %d variable %d: got %.12g expected %.12g = %.6g*x + %.12g (error/tolerance %.3g, |x|=%.3g)%s",cell[e],i,g[k],ex,md[e],D[0][k],er,nrm,desc.c_str()); VecDestroy(&rv); return; } } }
		rep.maxi("product error / (rounding+truncation estimate)",worst);
		std::vector<double> xa=get(x),ua=get(u),ra=get(rv),ma=get(dt); if(xa!=xv||ua!=u0||ra!=r0||ma!=md) { rep.viol("matfree:inputs-modified","product changed %s",xa!=xv?"the vector":ua!=u0?"the state":ra!=r0?"the residual":"the time-step vector"); }
		MatMult(A,x,y); std::vector<double> g2=get(y); for(size_t k=0;k<g.size();k++) if(!(std::fabs(g[k]-g2[k])<=3*tolr[k])) { rep.viol("matfree:not-repeatable","entry %zu %.15g then %.15g (expected %.15g, tolerance %.3g, scale %.3g, |x| %.3g)",k,g[k],g2[k],md[k/NV]*xv[k]+D[0][k],tolr[k],rs[k],nrm); break; }
	}
	VecSet(x,0); VecSet(y,5.); chk(MatMult(A,x,y),"matrix-free product of zero"); for(double v:get(y)) if(v!=0) { rep.viol("matfree:zero","product of the zero vector has entry %g",v); break; }
	VecDestroy(&rv); }
static void mMatfree(Rng&r) {
	bool diff=r.p(0.2); GMesh gm=genMesh(r,mopt(r)); Case c; c.gm=gm; c.setGeo();
	if(diff) { LMesh lm; std::string f=meshFile(gm); double nu=r.lu(1e-2,10),bv=r.u(-2,2),k1=r.u(-2,2); int gs=r.i(0,2); std::string desc=gm.desc+sf(" diffusion nu=%.3g %s",nu,gradName[gs]); rep.at(rep.cur+" "+desc); if(!lm.build(gm,*c.geo,f)) return;
		std::unique_ptr<DiffusionMA<1>> d(new DiffusionMA<1>(lm.m.get(),nu,bv,[=](const freal*x,const freal,const freal*u,freal*s) { s[0]=k1*u[0]+x[0]; },gradName[gs])); Vec u,rr,x,y,dt; createGhostedSystemVector(lm.m.get(),1,&u); VecDuplicate(u,&rr); createSystemVector(lm.m.get(),1,&x); VecDuplicate(x,&y); VecDuplicate(x,&dt); Mat A; chk(create_matrixfree_jacobian<1>(d.get(),&A),"create"); MatrixFreeSpatialJacobian<1>*mf; MatShellGetContext(A,(void*)&mf);
		int n=gm.el.size(); std::vector<double> g(n); for(double&v:g) v=r.u(-1,1); { PetscScalar*a; VecGetArray(u,&a); for(size_t e=0;e<lm.cell.size();e++) a[e]=g[lm.cell[e]]; VecRestoreArray(u,&a); VecGhostUpdateBegin(u,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(u,INSERT_VALUES,SCATTER_FORWARD); }
		auto resid=[&](const std::vector<double>&w) { PetscScalar*a; VecGetArray(u,&a); std::copy(w.begin(),w.end(),a); VecRestoreArray(u,&a); VecGhostUpdateBegin(u,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(u,INSERT_VALUES,SCATTER_FORWARD); VecSet(rr,0); d->compute_residual(u,rr,false,NULL); const PetscScalar*b; VecGetArrayRead(rr,&b); std::vector<double> q(b,b+lm.cell.size()); VecRestoreArrayRead(rr,&b); return q; };
		Vec rv2; VecDuplicate(u,&rv2); Ref R(gm,*c.geo); std::vector<double> rs(lm.cell.size()); for(size_t e=0;e<rs.size();e++) { double s=0; int k=lm.cell[e]; for(int f:c.geo->cf[k]) { P2 q=R.dr(f); s+=nu*c.geo->f[f].len/std::hypot(q[0],q[1])*(1+R.cond[k]); } rs[e]=3*s+3*c.geo->area[k]*(std::fabs(k1)+std::fabs(c.geo->cc[k][0])); }
		// the operator keeps handles to the very vectors it is given
		{ std::vector<double> u0(lm.cell.size()); const PetscScalar*b; VecGetArrayRead(u,&b); std::copy(b,b+u0.size(),u0.begin()); VecRestoreArrayRead(u,&b); std::vector<double> q=resid(u0); PetscScalar*a; VecGetArray(rv2,&a); std::copy(q.begin(),q.end(),a); VecRestoreArray(rv2,&a); }
		mf->set_state(u,rv2,dt); matfreeCore(r,1,d.get(),A,lm.cell,n,u,x,y,dt,resid,rs,desc,[&](std::vector<double>&v) { v.resize(n); for(double&q:v) q=r.u(-1,1); });
		rep.eval(hashs(desc)); rep.count("diffusion operators"); MatDestroy(&A); for(Vec*v:{&u,&rr,&x,&y,&dt,&rv2}) VecDestroy(v); return; }
	rndConf(r,c,r.p(0.8)?kAll:std::vector<int>{B_SUBIN,B_FAR,B_SLIP},40,0.6); c.conf(); setState(r,c,r.lu(1e-2,0.2),r.p(0.5)?1:0); c.desc=c.describe(); rep.at(rep.cur+" "+c.desc); RefRes R=refResidual(c,c.u); if(R.bad) { rep.count("inadmissible (skipped)"); return; }
	Lib L; L.mesh(c); if(!L.ok) return; L.disc(c); L.set(c.u); Mat A; chk(create_matrixfree_jacobian<4>(L.s,&A),"create"); if(!isMatrixFree(A)) rep.viol("matfree:type","operator not recognised as matrix-free"); MatrixFreeSpatialJacobian<4>*mf; MatShellGetContext(A,(void*)&mf); Vec x,y,rv; createSystemVector(L.lm.m.get(),4,&x); VecDuplicate(x,&y); VecDuplicate(L.u,&rv);
	auto resid=[&](const std::vector<double>&w) { L.put(L.u,w); VecGhostUpdateBegin(L.u,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(L.u,INSERT_VALUES,SCATTER_FORWARD); L.residual(false); return L.get(L.r); };
	std::vector<double> u0=L.get(L.u); L.put(rv,resid(u0)); mf->set_state(L.u,rv,L.dt); int n=c.gm.el.size(); std::vector<double> rs(4*L.lm.cell.size()); for(size_t e=0;e<L.lm.cell.size();e++) for(int i=0;i<4;i++) rs[4*e+i]=R.scale[L.lm.cell[e]][i]*(1+(c.o2?60:5)+3/(c.G.g*c.G.M*c.G.M));
	matfreeCore(r,4,L.s,A,L.lm.cell,n,L.u,x,y,L.dt,resid,rs,"",[&](std::vector<double>&v) { U4 d=rndDir(r,c); v.resize(4*n); for(int e=0;e<n;e++) for(int i=0;i<4;i++) v[4*e+i]=d[e][i]; });
	rep.eval(mix(hashs(c.desc),hashd(c.u[0].data(),4*n)),n>1); rep.count(c.o2?"second-order residuals":"first-order residuals"); rep.sample(c.desc); MatDestroy(&A); VecDestroy(&x); VecDestroy(&y); VecDestroy(&rv); }

// surface coefficients
static void mSurf(Rng&r) {
	MOpt o=mopt(r); if(r.p(0.4)) { o.kind=1; } Case c; c.gm=genMesh(r,o); c.setGeo(); rndConf(r,c,kAll,50,1); if(c.grad==GR_NONE) c.grad=GR_GG; c.conf(); setState(r,c,r.lu(1e-2,0.3),r.i(0,1)); int uni=r.p(0.3); c.desc=c.describe()+(uni?" uniform pressure":""); rep.at(rep.cur+" "+c.desc);
	double pin=1/(c.G.g*c.G.M*c.G.M),pu=r.u(0.5,2)*pin; if(uni) for(auto&q:c.u) { double w[4]; toCons(c.G,q[0],q[1]/q[0],q[2]/q[0],pu,w); for(int i=0;i<4;i++) q[i]=w[i]; }
	Lib L; L.mesh(c); if(!L.ok) return; L.disc(c); L.set(c.u); const UMesh<freal,2>&m=*L.lm.m; int nl=L.lm.cell.size(); std::vector<GradBlock_t<freal,NDIM,4>> g(nl+m.gnConnFace()); bool real=r.p(0.5); U4 gx(c.gm.el.size()),gy(gx.size()); double ext=std::sqrt(c.geo->area[0]); for(size_t e=0;e<gx.size();e++) for(int i=0;i<4;i++) { gx[e][i]=r.u(-1,1)/ext; gy[e][i]=r.u(-1,1)/ext; }
	if(real) { L.s->getGradients(L.u,g.data()); std::vector<double> loc(c.gm.el.size()*8,0),all(loc.size()); for(int e=0;e<nl;e++) for(int i=0;i<4;i++) { loc[8*L.lm.cell[e]+2*i]=g[e](0,i); loc[8*L.lm.cell[e]+2*i+1]=g[e](1,i); } MPI_Allreduce(loc.data(),all.data(),loc.size(),MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); for(size_t e=0;e<gx.size();e++) for(int i=0;i<4;i++) { gx[e][i]=all[8*e+2*i]; gy[e][i]=all[8*e+2*i+1]; } }
	else for(int e=0;e<nl;e++) for(int i=0;i<4;i++) { g[e](0,i)=gx[L.lm.cell[e]][i]; g[e](1,i)=gy[L.lm.cell[e]][i]; }
	Ref R(c.gm,*c.geo); double w[2]={std::cos(c.aoa),std::sin(c.aoa)}; std::vector<double> us=L.get(L.u);
	for(int tag:meshTags(c.gm)) { double cl=0,cd=0,cf=0,len=0,sc=0,sf2=0; std::map<int,std::array<double,4>> ex; std::vector<double> fs; double nmax=0;
		for(size_t f=0;f<c.geo->f.size();f++) { const Geo::F&F=c.geo->f[f]; if(F.R>=0||F.tag!=tag) continue; const double*U=c.u[F.L].data(); double cp=2*(rP(c.G,U)-pin); double du[2][2]; const double G2[2][4]={{gx[F.L][0],gx[F.L][1],gx[F.L][2],gx[F.L][3]},{gy[F.L][0],gy[F.L][1],gy[F.L][2],gy[F.L][3]}}; for(int i=0;i<2;i++) for(int j=0;j<2;j++) du[i][j]=(G2[j][1+i]-U[1+i]/U[0]*G2[j][0])/U[0];
			double mu=!c.visc?0:c.cvisc?1/c.G.Re:rMu(c.G,rT(c.G,U)); double n[2]={F.nx,F.ny},t[2]={F.ny,-F.nx}; double tr[2]; for(int i=0;i<2;i++) tr[i]=mu*((du[i][0]+du[0][i])*n[0]+(du[i][1]+du[1][i])*n[1]); double cff=2*(tr[0]*t[0]+tr[1]*t[1]); double as=0; for(auto&q:du) for(double x:q) as+=2*std::fabs(x); nmax=std::max(nmax,mu*as);
			ex[f]={{R.mid[f][0],R.mid[f][1],cp,cff}}; cl+=cp*(-n[0]*w[1]+n[1]*w[0])*F.len; cd+=cp*(n[0]*w[0]+n[1]*w[1])*F.len; cf+=cff*(t[0]*w[0]+t[1]*w[1])*F.len; len+=F.len; sc+=(std::fabs(cp)+2*(pin+std::fabs(U[3])))*F.len; sf2+=mu*as*F.len; }
		int nf=0; for(int b=m.gPhyBFaceStart();b<m.gPhyBFaceEnd();b++) nf+=m.gbtags(b,0)==tag; MVector<freal> out(nf,4); out.setConstant(-77.); freal CL,CDp,CDf; { amat::Array2dView<freal> ua(us.data(),nl,4); std::tie(CL,CDp,CDf)=L.s->computeSurfaceData(ua,g.data(),tag,out); }
		int k=0; std::set<int> seen; for(int b=m.gPhyBFaceStart();b<m.gPhyBFaceEnd();b++) if(m.gbtags(b,0)==tag) { // rows in any order: match by face centre
			double bx=out(k,0),by=out(k,1); int best=-1; double bd=1e300; for(auto&q:ex) { double d=std::hypot(q.second[0]-bx,q.second[1]-by); if(d<bd) { bd=d; best=q.first; } } if(best<0||!(bd<=1e-9*c.geo->f[best].len*(1+1e3))||!seen.insert(best).second) { rep.viol("surface:row-face","marker %d row %d at (%g,%g) is no face of the marker, or repeated",tag,k,bx,by); return; }
			auto&q=ex[best]; const double*U=c.u[c.geo->f[best].L].data(); if(!near(out(k,2),q[2],1e-12,1+2*pin+10*std::fabs(U[3]))) { rep.viol("surface:cp","marker %d face %d: Cp %.15g expected %.15g",tag,best,out(k,2),q[2]); return; } if(!(std::fabs(out(k,3)-q[3])<=1e-11*nmax)) { rep.viol("surface:cf","marker %d face %d: Cf %.15g expected %.15g%s",tag,best,out(k,3),q[3],c.visc?"":" (inviscid)"); return; } k++; }
		auto cmp=[&](const char*nm,double got,double ex,double s) { double er=std::fabs(got-ex)/s; rep.maxi(std::string("error of ")+nm,er); if(!(er<=1e-11)) rep.viol(std::string("surface:")+nm,"marker %d: got %.15g expected %.15g (scale %.3g)",tag,got,ex,s); };
		cmp("CL",CL,cl/len,sc/len); cmp("CDp",CDp,cd/len,sc/len); if(c.visc) cmp("CDf",CDf,cf/len,sf2/len+1e-300); else if(CDf!=0) rep.viol("surface:inviscid-friction","marker %d: CDf %.15g in an inviscid simulation",tag,CDf);
		bool closed=c.gm.desc.compare(0,5,"kind1")==0; if(uni&&closed) { double s=(std::fabs(2*(pu-pin))+2*pin+2*pu); for(auto&q:c.u) s=std::max(s,q[3]); if(!(std::fabs(CL)<=1e-11*s&&std::fabs(CDp)<=1e-11*s)) rep.viol("surface:closed-body","uniform pressure on closed marker %d gives CL %.3g CDp %.3g",tag,CL,CDp); rep.count("closed bodies under uniform pressure"); }
		rep.count("marker integrals"); rep.count("surface faces",nf); if(nf==0&&mpiSize()>1) rep.count("ranks without faces of a marker"); }
	rep.eval(mix(hashs(c.desc),hashd(c.u[0].data(),4))); rep.sample(c.desc); }

// diffusion
static void mDiff(Rng&r) {
	GMesh gm=genMesh(r,mopt(r)); Geo G(gm); LMesh lm; double nu=r.lu(1e-3,1e2),bv=r.u(-3,3),k0=r.u(-2,2),k1=r.p(0.5)?0:r.u(-2,2); int gs=r.i(0,2),type=r.i(0,2); std::string desc=gm.desc+sf(" nu=%.3g bval=%.3g source=%.3g%+.3gu %s field%d",nu,bv,k0,k1,gradName[gs],type); rep.at(rep.cur+" "+desc); if(!lm.build(gm,G,meshFile(gm))) return; const UMesh<freal,2>&m=*lm.m; int ne=gm.el.size(),nl=lm.cell.size(); Ref R(gm,G);
	long calls=0; std::unique_ptr<DiffusionMA<1>> d(new DiffusionMA<1>(&m,nu,bv,[&](const freal*x,const freal,const freal*u,freal*s) { 
#pragma omp atomic
		calls++; s[0]=k0*(1+x[0])+k1*u[0]; },gradName[gs]));
	double ext=0; for(auto&p:gm.p) ext=std::max({ext,std::fabs(p[0]-gm.p[0][0]),std::fabs(p[1]-gm.p[0][1])}); double a0=r.u(-2,2),ax=r.u(-2,2)/ext,ay=r.u(-2,2)/ext; std::vector<double> u(ne),ug(R.nb); for(int e=0;e<ne;e++) u[e]=type==0?a0+ax*(G.cc[e][0]-gm.p[0][0])+ay*(G.cc[e][1]-gm.p[0][1]):type==1?r.u(-1,1):bv; for(int b=0;b<R.nb;b++) ug[b]=2*bv-u[G.f[R.bidx[b]].L];
	auto g=R.grad(gs,u,ug,1); std::vector<double> ex(ne,0),sc(ne,0),lap(ne,0); double bsum=0,ssum=0,tots=0; std::vector<int> layer(ne,1<<20);
	for(size_t f=0;f<G.f.size();f++) { const Geo::F&F=G.f[f]; P2 q=R.dr(f); double dist=std::hypot(q[0],q[1]); double dd[2]={q[0]/dist,q[1]/dist}; double uR=F.R>=0?u[F.R]:ug[-1-F.R]; double av[2]; for(int k=0;k<2;k++) av[k]=F.R>=0?0.5*(g[F.L][k]+g[F.R][k]):g[F.L][k]; double dn=av[0]*dd[0]+av[1]*dd[1],cr=(uR-u[F.L])/dist; double fl=0; for(int k=0;k<2;k++) fl+=(av[k]+(cr-dn)*dd[k])*(k?F.ny:F.nx); fl*=-nu*F.len; double s=nu*F.len*((std::fabs(uR)+std::fabs(u[F.L]))/dist+std::fabs(av[0])+std::fabs(av[1])); double gm2=0; for(int e:{F.L,F.R}) if(e>=0) for(int h:G.cf[e]) { P2 z=R.dr(h); gm2=std::max(gm2,(1+R.cond[e])*(3+std::fabs(bv))/std::hypot(z[0],z[1])); } s+=nu*F.len*gm2; ex[F.L]-=fl; sc[F.L]+=s; if(F.R>=0) { ex[F.R]+=fl; sc[F.R]+=s; } else { bsum+=fl; layer[F.L]=0; } }
	double Rc=0; for(auto&p:gm.p) Rc=std::max({Rc,std::fabs(p[0]),std::fabs(p[1])}); for(int e=0;e<ne;e++) { lap[e]=ex[e]; double s=k0*(1+G.cc[e][0])+k1*u[e]; ex[e]+=s*G.area[e]; ssum+=s*G.area[e]; sc[e]+=(std::fabs(k0*(1+G.cc[e][0]))+std::fabs(k1*u[e]))*(G.area[e]+1e-4*Rc*Rc)+1e-4*std::fabs(k0)*Rc*G.area[e]; /* areas are known to the rounding of products of coordinates */ tots+=sc[e]; }
	Vec U,r1,dt; createGhostedSystemVector(&m,1,&U); VecDuplicate(U,&r1); createSystemVector(&m,1,&dt); auto put=[&](Vec v,const std::vector<double>&q) { PetscScalar*a; VecGetArray(v,&a); for(int e=0;e<nl;e++) a[e]=q[lm.cell[e]]; VecRestoreArray(v,&a); VecGhostUpdateBegin(v,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(v,INSERT_VALUES,SCATTER_FORWARD); }; auto get=[&](Vec v) { const PetscScalar*a; VecGetArrayRead(v,&a); std::vector<double> q(a,a+nl); VecRestoreArrayRead(v,&a); return q; };
	put(U,u); std::vector<double> init(ne,0); if(r.p(0.3)) for(int e=0;e<ne;e++) init[e]=r.u(-1,1)*sc[e]; put(r1,init); bool gdt=r.p(0.5); VecSet(dt,-7.5); chk(d->compute_residual(U,r1,gdt,gdt||r.p(0.5)?dt:NULL),"diffusion residual"); std::vector<double> q=get(r1),qd=get(dt),ua=get(U); double sum=0; for(int e=0;e<nl;e++) { int k=lm.cell[e]; double got=q[e]-init[k]; sum+=got; double er=std::fabs(got-ex[k])/sc[k]; rep.maxi("diffusion residual error",er); if(!(er<=1e-11)) { rep.viol("diffusion:residual","cell %d got %.15g expected %.15g (scale %.3g)",k,got,ex[k],sc[k]); break; } if(ua[e]!=u[k]) { rep.viol("diffusion:state-modified","cell %d",k); break; }
		double h=0; for(int f:G.cf[k]) h=std::max(h,G.f[f].len); if(gdt) { if(!near(qd[e],h*h/nu,1e-12,h*h/nu)) { rep.viol("diffusion:timestep","cell %d got %.15g expected %.15g",k,qd[e],h*h/nu); break; } } else if(qd[e]!=-7.5) { rep.viol("diffusion:timestep-unrequested","cell %d %g",k,qd[e]); break; } }
	double tot; MPI_Allreduce(&sum,&tot,1,MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); if(!(std::fabs(tot-(ssum-bsum))<=1e-11*tots)) rep.viol("diffusion:conservation","sum of residuals %.15g, sources minus boundary outflow %.15g",tot,ssum-bsum);
	if(type==0&&gs==GR_LSQ) { std::vector<int> st; for(int e=0;e<ne;e++) if(!layer[e]) st.push_back(e); for(size_t h=0;h<st.size();h++) for(int f:G.cf[st[h]]) { int o=G.f[f].L==st[h]?G.f[f].R:G.f[f].L; if(o>=0&&layer[o]>layer[st[h]]+1) { layer[o]=layer[st[h]]+1; st.push_back(o); } } for(int e=0;e<nl;e++) { int k=lm.cell[e]; if(layer[k]<2) continue; double v=q[e]-init[k]-(k0*(1+G.cc[k][0])+k1*u[k])*G.area[k]; rep.count("cells with linear field away from the boundary"); if(!(std::fabs(v)<=1e-10*sc[k])) { rep.viol("diffusion:linear-field","cell %d: net flux %.6g for a linear field (scale %.3g)",k,v,sc[k]); break; } } }
	// Jacobian
	Mat A; chk(setupSystemMatrix<1>(&m,&A),"setupSystemMatrix<1>"); Vec x,y; createSystemVector(&m,1,&x); VecDuplicate(x,&y); for(int t=0;t<2;t++) { MatZeroEntries(A); chk(d->assemble_jacobian(U,A),"assemble"); MatAssemblyBegin(A,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A,MAT_FINAL_ASSEMBLY); std::vector<double> v(ne); for(double&z:v) z=r.u(-1,1); { PetscScalar*a; VecGetArray(x,&a); for(int e=0;e<nl;e++) a[e]=v[lm.cell[e]]; VecRestoreArray(x,&a); } MatMult(A,x,y); std::vector<double> jy(ne,0),js(ne,0); for(size_t f=0;f<G.f.size();f++) { const Geo::F&F=G.f[f]; P2 z=R.dr(f); double d2=z[0]*z[0]+z[1]*z[1]; double w=nu*F.len*(z[0]*F.nx+z[1]*F.ny)/d2; double vr=F.R>=0?v[F.R]:-v[F.L]; jy[F.L]+=w*(v[F.L]-vr); js[F.L]+=2*std::fabs(w); if(F.R>=0) { jy[F.R]-=w*(v[F.L]-vr); js[F.R]+=2*std::fabs(w); } }
		std::vector<double> gy=get(y); for(int e=0;e<nl;e++) { int k=lm.cell[e]; double er=std::fabs(gy[e]-jy[k])/js[k]; rep.maxi("diffusion Jacobian error",er); if(!(er<=1e-11)) { rep.viol("diffusion:jacobian","cell %d got %.15g expected %.15g (scale %.3g)",k,gy[e],jy[k],js[k]); break; } } }
	{ // sparsity and sign
		PetscInt lo,hi; MatGetOwnershipRange(A,&lo,&hi); for(PetscInt i=lo;i<hi;i++) { PetscInt nc; const PetscInt*cs; const PetscScalar*vs; MatGetRow(A,i,&nc,&cs,&vs); int k=lm.cell[i-lo]; double sm=0; int off=0; for(int j=0;j<nc;j++) { sm+=vs[j]; if(cs[j]==i) { if(!(vs[j]>0)) rep.viol("diffusion:diagonal-sign","cell %d diagonal %g",k,vs[j]); } else if(vs[j]!=0) off++; } int nn=0; for(int f:G.cf[k]) nn+=G.f[f].R>=0; if(off>nn) rep.viol("diffusion:sparsity","cell %d has %d off-diagonal entries and %d neighbours",k,off,nn); MatRestoreRow(A,i,&nc,&cs,&vs); } }
	// gradients entry point
	{ std::vector<GradBlock_t<freal,NDIM,1>> gb(nl+m.gnConnFace()); d->getGradients(U,gb.data()); for(int e=0;e<nl;e++) { int k=lm.cell[e]; double dm=1e300,per=0; for(int f:G.cf[k]) { P2 z=R.dr(f); dm=std::min(dm,std::hypot(z[0],z[1])); per+=G.f[f].len; } double s=(1/dm+per/G.area[k])*(1+R.cond[k])*(3+std::fabs(bv)); for(int dd=0;dd<2;dd++) if(!(std::fabs(gb[e](dd,0)-g[k][dd])<=1e-10*s)) { rep.viol("diffusion:gradient","cell %d got %.15g expected %.15g",k,gb[e](dd,0),g[k][dd]); e=nl; break; } } }
	rep.eval(hashs(desc),ne>1); rep.count(gradName[gs]); rep.count("cells",nl); rep.sample(desc); MatDestroy(&A); for(Vec*v:{&U,&r1,&dt,&x,&y}) VecDestroy(v); }

// transformed problem against the original one
static void mEqui(Rng&r) {
	Case c; MOpt o=mopt(r); o.scale=false; c.gm=genMesh(r,o); c.setGeo(); rndConf(r,c,r.p(0.8)?kAll:std::vector<int>{B_SUBIN,B_FAR,B_SLIP},40,0.6);
	bool quarter=r.p(0.4); bool lim=c.o2&&c.rec!=RC_NONE; double th= quarter||lim? M_PI/2*r.i(0,3):r.u(0,6.28); bool refl=r.p(0.4); double sc=r.p(0.4)?r.lu(0.05,20):1; if(c.o2&&c.rec==RC_WENO) sc=1; double tx=r.u(-5,5),ty=r.u(-5,5);
	double pinf=1/(c.G.g*c.G.M*c.G.M); (void)pinf; c.conf(); setState(r,c,r.lu(1e-2,0.2),r.p(0.5)?1:0); c.desc=c.describe()+sf(" rotate %.4g%s scale %.3g shift %.3g,%.3g",th,refl?" reflect":"",sc,tx,ty); rep.at(rep.cur+" "+c.desc); RefRes R=refResidual(c,c.u); bool bad=R.bad; for(char x:R.skip) bad=bad||x; 
	double cs=std::cos(th),sn=std::sin(th); if(quarter||lim) { cs=std::round(cs); sn=std::round(sn); } auto rot=[&](double x,double y,double&a,double&b) { if(refl) y=-y; a=cs*x-sn*y; b=sn*x+cs*y; };
	Case d; d.gm=c.gm; for(auto&p:d.gm.p) { double a,b; rot(p[0],p[1],a,b); p={sc*a+tx,sc*b+ty}; } if(refl) for(auto&e:d.gm.el) std::reverse(e.begin(),e.end()); d.setGeo(); d.G=c.G; d.visc=c.visc; d.cvisc=c.cvisc; d.o2=c.o2; d.flux=c.flux; d.jflux=c.jflux; d.grad=c.grad; d.rec=c.rec; d.lim=c.lim; d.bc=c.bc; d.aoa=(refl?-c.aoa:c.aoa)+th; d.G.Re=c.G.Re/sc; if(c.rec==RC_VENKAT) d.lim=c.lim/sc; if(refl) for(auto&b:d.bc) if(b.second.kind==B_ADIA||b.second.kind==B_ISO) b.second.v0*=-1; d.conf(); d.u=c.u; for(auto&q:d.u) { double a,b; rot(q[1],q[2],a,b); q[1]=a; q[2]=b; }
	if(c.o2&&lim) { // quarter turns permute the velocity components exactly
	}
	if(bad) { rep.count("inadmissible (skipped)"); return; }
	Lib A,B; A.mesh(c); B.mesh(d); if(!A.ok||!B.ok) return; A.disc(c); B.disc(d); A.set(c.u); B.set(d.u); A.residual(true); B.residual(true); std::vector<double> ra=A.get(A.r),rb=B.get(B.r),da=A.get(A.dt),db=B.get(B.dt); std::map<int,int> ib; for(size_t e=0;e<B.lm.cell.size();e++) ib[B.lm.cell[e]]=e; int nl=A.lm.cell.size();
	std::vector<GradBlock_t<freal,NDIM,4>> ga(nl+A.lm.m->gnConnFace()),gb(nl+B.lm.m->gnConnFace()); A.s->getGradients(A.u,ga.data()); B.s->getGradients(B.u,gb.data()); Ref RR(c.gm,*c.geo);
	double cm=1; for(double q:RR.cond) cm=std::max(cm,q); double tol=1e-10*(1+0.1*cm*(c.o2?1:0))*(1+(std::fabs(tx)+std::fabs(ty))/sc); if(c.o2&&(c.rec==RC_VANALBADA||c.rec==RC_WENO)) tol*=1e3;
	for(int e=0;e<nl;e++) { int k=A.lm.cell[e]; auto it=ib.find(k); if(it==ib.end()) { rep.viol("equivariance:partition","cell %d is on another rank in the transformed run",k); return; } int f=it->second; double mx,my; rot(ra[4*e+1],ra[4*e+2],mx,my); double ex[4]={sc*ra[4*e],sc*mx,sc*my,sc*ra[4*e+3]}; double ms=std::max(R.scale[k][1],R.scale[k][2]); double S[4]={R.scale[k][0],ms,ms,R.scale[k][3]};
		for(int i=0;i<4;i++) { double er=std::fabs(rb[4*f+i]-ex[i])/(sc*S[i]); rep.maxi("equivariance error of residuals / tolerance",er/tol); if(!(er<=tol)) { rep.viol(std::string("equivariance:residual")+(c.o2?"-order2":"-order1"),"cell %d variable %d: %.15g expected %.15g (scale %.3g, error %.3g)",k,i,rb[4*f+i],ex[i],sc*S[i],er); return; } }
		double er=std::fabs(db[f]-sc*da[e])/(sc*da[e]); rep.maxi("equivariance error of time steps / tolerance",er/tol); if(!(er<=tol)) { rep.viol("equivariance:timestep","cell %d: %.15g expected %.15g",k,db[f],sc*da[e]); return; }
		double gs=0; for(int i=0;i<4;i++) for(int q=0;q<2;q++) gs=std::max(gs,std::fabs(ga[e](q,i))); double um=0; for(double v:c.u[k]) um=std::max(um,std::fabs(v)); double dm=1e300; for(int h:c.geo->cf[k]) { P2 z=RR.dr(h); dm=std::min(dm,std::hypot(z[0],z[1])); int ob=c.geo->f[h].L==k?c.geo->f[h].R:c.geo->f[h].L; if(ob>=0) for(double v:c.u[ob]) um=std::max(um,std::fabs(v)); } gs+=um/dm*(1+0.1*RR.cond[k]);
		double rg[2][4]; for(int i=0;i<4;i++) rot(ga[e](0,i),ga[e](1,i),rg[0][i],rg[1][i]); for(int q=0;q<2;q++) { double a,b; rot(rg[q][1],rg[q][2],a,b); rg[q][1]=a; rg[q][2]=b; } for(int q=0;q<2;q++) for(int i=0;i<4;i++) { double er2=std::fabs(gb[f](q,i)-rg[q][i]/sc)*sc/gs; if(!(er2<=tol)) { rep.viol("equivariance:gradient","cell %d variable %d direction %d: %.15g expected %.15g",k,i,q,gb[f](q,i),rg[q][i]/sc); return; } } }
	std::vector<double> ua=A.get(A.u),ub=B.get(B.u); for(int tag:meshTags(c.gm)) { int nf=0; for(int b=A.lm.m->gPhyBFaceStart();b<A.lm.m->gPhyBFaceEnd();b++) nf+=A.lm.m->gbtags(b,0)==tag; MVector<freal> oa(nf,4),ob(nf,4); freal a[3],b[3]; std::tie(a[0],a[1],a[2])=A.s->computeSurfaceData(amat::Array2dView<freal>(ua.data(),nl,4),ga.data(),tag,oa); std::tie(b[0],b[1],b[2])=B.s->computeSurfaceData(amat::Array2dView<freal>(ub.data(),nl,4),gb.data(),tag,ob); double S=2*pinf,SF=0; for(auto&q:c.u) S=std::max(S,4*q[3]); double gmax=0; for(int e=0;e<nl;e++) for(int i=0;i<4;i++) for(int q=0;q<2;q++) gmax=std::max(gmax,std::fabs(ga[e](q,i))); double gall; MPI_Allreduce(&gmax,&gall,1,MPI_DOUBLE,MPI_MAX,MPI_COMM_WORLD); SF=40/c.G.Re*(gall+0)*(1+1/c.G.M)*5; double hm=1e300; for(auto&f:c.geo->f) hm=std::min(hm,f.len); SF+=40/c.G.Re*(1+1/c.G.M)/hm;
		if(refl) a[0]=-a[0]; for(int i=0;i<3;i++) { double er=std::fabs(a[i]-b[i])/(i<2?S:SF); if(!(er<=tol*10)) { rep.viol("equivariance:surface","marker %d coefficient %d: %.15g expected %.15g",tag,i,b[i],a[i]); return; } } rep.count("surface coefficients compared",3); }
	rep.eval(mix(hashs(c.desc),hashd(c.u[0].data(),4)),c.gm.el.size()>1); if(refl) rep.count("reflections"); if(sc!=1) rep.count("scalings"); if(th!=0) rep.count(quarter||lim?"quarter turns":"general rotations"); rep.sample(c.desc); }

int main(int argc,char**argv) {
	std::string m=argv[1]; Petsc P(argc,argv);
	runCases([&](Rng&r,long) { if(m=="matrix") mMatrix(r); else if(m=="matfree") mMatfree(r); else if(m=="surf") mSurf(r); else if(m=="diff") mDiff(r); else if(m=="equi") mEqui(r); });
}
