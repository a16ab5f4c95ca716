// Pseudo-time and Runge-Kutta solvers observed from inside: the residual evaluations they make, the linear systems they pose, the states they produce.
#include <iostream>
#include <fstream>
#include "jac.hpp"
#include "spatial/diffusion.hpp"
#include "ode/aodesolver.hpp"
#include "ode/nonlinearrelaxation.hpp"
#include "utilities/aerrorhandling.hpp"
#include "utilities/casesolvers.hpp"
using namespace vf;
namespace vf { Rep rep; AsFound asFound; }
typedef std::vector<double> VD;
static const std::vector<int> kAll={B_SLIP,B_FAR,B_INOUT,B_EXTRAP,B_ADIA,B_ISO};
static MOpt mopt(Rng&r) { MOpt o; o.nmin=1; o.nmax=5; if(mpiSize()>1) { o.nmin=3; o.nmax=6; } if(r.p(0.1)) o.nmin=o.nmax=mpiSize()>1?3:r.i(1,2); return o; }
static void chk(int ierr,const char*what) { if(ierr) rep.viol(std::string("error-code:")+what,"%d",ierr); }
static VD getv(Vec v) { PetscInt n; VecGetLocalSize(v,&n); const PetscScalar*a; VecGetArrayRead(v,&a); VD q(a,a+n); VecRestoreArrayRead(v,&a); return q; }
static void putv(Vec v,const VD&q) { PetscScalar*a; VecGetArray(v,&a); std::copy(q.begin(),q.end(),a); VecRestoreArray(v,&a); }
static void ghosts(Vec v) { VecGhostUpdateBegin(v,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(v,INSERT_VALUES,SCATTER_FORWARD); }
struct Quiet { std::streambuf*b; std::ostringstream s; Quiet() { b=std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };

// a spatial discretisation that forwards to another one (or to a script) and records what it was asked
template<int NV> struct Spy : public Spatial<freal,NV> {
	struct Call { VD u; bool gdt; };
	const Spatial<freal,NV>*in; mutable std::vector<Call> log; std::function<void(int,const VD&,VD&,VD&)> script; mutable int nscr=0; mutable long nres=0; mutable bool staleGhost=false; const std::vector<int>*cell=nullptr;
	Spy(const UMesh<freal,NDIM>*m,const Spatial<freal,NV>*i):Spatial<freal,NV>(m),in(i) {}
	// the ghost entries of the state handed over must be those of the owning ranks
	void ghostCheck(Vec u) const { if(mpiSize()==1) return; Vec w; VecDuplicate(u,&w); VecCopy(u,w); ghosts(w); Vec a,b; VecGhostGetLocalForm(u,&a); VecGhostGetLocalForm(w,&b); const PetscScalar*x,*y; PetscInt n; VecGetLocalSize(a,&n); VecGetArrayRead(a,&x); VecGetArrayRead(b,&y); for(int i=0;i<n;i++) if(x[i]!=y[i]&&!(std::isnan(x[i])&&std::isnan(y[i]))) staleGhost=true; VecRestoreArrayRead(a,&x); VecRestoreArrayRead(b,&y); VecGhostRestoreLocalForm(u,&a); VecGhostRestoreLocalForm(w,&b); VecDestroy(&w); }
	StatusCode compute_residual(const Vec u,Vec r,const bool gdt,Vec dt) const override { nres++; ghostCheck(u); if(log.size()<4000) log.push_back({getv(u),gdt});
		if(script) { VD ul=getv(u),rl=getv(r),d; if(gdt) d=getv(dt); script(nscr,ul,rl,d); if(gdt) { putv(dt,d); nscr++; } PetscScalar*a; VecGetArray(r,&a); std::copy(rl.begin(),rl.end(),a); VecRestoreArray(r,&a); return 0; }
		return in->compute_residual(u,r,gdt,dt); }
	typedef Eigen::Matrix<freal,NV,NV,Eigen::RowMajor> B;
	void compute_local_jacobian_interior(const fint f,const freal*const a,const freal*const b,B&L,B&U) const override { if(in) in->compute_local_jacobian_interior(f,a,b,L,U); else { L=B::Zero(); U=B::Zero(); } }
	void compute_local_jacobian_boundary(const fint f,const freal*const a,B&L) const override { if(in) in->compute_local_jacobian_boundary(f,a,L); else L=B::Zero(); }
	void getGradients(const Vec u,GradBlock_t<freal,NDIM,NV>*const g) const override { if(in) in->getGradients(u,g); }
};
// preconditioner that records the system it is given and answers with an update of the harness's choosing
struct Shell { Vec u,probe,y; Mat A,P; std::vector<VD> us,rhs,Ap,Pp; std::function<void(int,const VD&,VD&)> du; std::vector<VD> dus; int n=0; };
static PetscErrorCode shellApply(PC pc,Vec x,Vec y) { Shell*s; PCShellGetContext(pc,(void**)&s); VD rhs=getv(x),u=getv(s->u),d(rhs.size()); s->us.push_back(u); s->rhs.push_back(rhs); PCGetOperators(pc,&s->A,&s->P); MatMult(s->A,s->probe,s->y); s->Ap.push_back(getv(s->y)); MatMult(s->P,s->probe,s->y); s->Pp.push_back(getv(s->y)); s->du(s->n,u,d); s->n++; s->dus.push_back(d); putv(y,d); return 0; }

// rounding level of each computed norm: the change of the residual under last-digit changes of the state (empty: none known)
static std::vector<double> gFloor;
static double flo(size_t k) { return k<gFloor.size()?gFloor[k]:0; }
static VD jiggle(const VD&u) { VD v(u); static Rng q(99); for(double&x:v) x*=1+2e-15*q.u(-1,1); return v; }
static double enorm(const UMesh<freal,NDIM>&m,const VD&r,int nv) { double s=0; for(int e=0;e<m.gnelem();e++) s+=r[nv*e+nv-1]*r[nv*e+nv-1]*m.garea(e); double g; MPI_Allreduce(&s,&g,1,MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); return std::sqrt(g); }
// outcome of a solve and its records against the norms that were really computed. norms: of the residuals at the successive states (before each update); returns false on a violation
static bool outcome(const char*key,const TimingData&td,const SteadySolverConfig&cf,const std::vector<double>&norms,int nsteps,int thrown /*0 none 1 tolerance 2 numerical*/,bool implicit,bool known /*norms beyond nsteps are known too*/) {
	int exp=0,want=1; bool fuzzy=false; for(size_t k=0;k<norms.size()&&(int)k<cf.maxiter;k++) { exp=k+1; if(!std::isfinite(norms[k])) { want=2; break; } double q=cf.tol*norms[0]; if(std::fabs(norms[k]-q)<=1e-9*q+flo(k)&&norms[0]!=0) fuzzy=true; if(norms[k]<=q) { want=0; break; } }
	if(fuzzy) { rep.count("tolerance hit to rounding (outcome not asserted)"); return true; }
	if(!known&&(int)norms.size()<=nsteps&&exp==nsteps&&want==1&&nsteps<cf.maxiter) { rep.viol(std::string(key)+":stopped-early","stopped after %d of %d allowed steps at relative residual %.6g, tolerance %.6g, outcome %d",nsteps,cf.maxiter,norms[nsteps-1]/norms[0],cf.tol,thrown); return false; }
	if(nsteps>cf.maxiter) { rep.viol(std::string(key)+":too-many-steps","%d steps, %d allowed",nsteps,cf.maxiter); return false; }
	if(nsteps!=exp) { rep.viol(std::string(key)+":step-count","%d steps performed, %d expected (tolerance %.3g, at most %d)",nsteps,exp,cf.tol,cf.maxiter); return false; }
	if(thrown!=want) { const char*nm[]={"normal return","tolerance error","numerical error"}; rep.viol(std::string(key)+":outcome","%s, expected %s: relative residual %.6g after %d steps, tolerance %.6g, at most %d",nm[thrown],nm[want],norms[nsteps-1]/norms[0],nsteps,cf.tol,cf.maxiter); return false; }
	rep.count(want==0?"converged solves":want==1?"solves that ran out of steps":"solves stopped by NaN or infinity");
	if(want!=2) { if(td.converged!=(want==0)) { rep.viol(std::string(key)+":converged-flag","flag %d, outcome %d",(int)td.converged,want); return false; } if(td.num_timesteps!=nsteps) { rep.viol(std::string(key)+":num-timesteps","recorded %d, performed %d",td.num_timesteps,nsteps); return false; } }
	if(cf.lognres) { int nrec= want==2? nsteps-1:nsteps; if((int)td.convhis.size()<nrec||(int)td.convhis.size()>nsteps) { rep.viol(std::string(key)+":history-length","%zu rows for %d steps",td.convhis.size(),nsteps); return false; }
		for(int k=0;k<nrec;k++) { const SteadyStepMonitor&s=td.convhis[k]; if(s.step!=k+1) { rep.viol(std::string(key)+":history-step","row %d has step %d",k,s.step); return false; } double a=norms[k],q=norms[k]/norms[0]; if(a>1e37||q>1e37) continue; if(!(std::fabs(s.absrmsres-a)<=1e-6*a+1e-37+flo(k))) { rep.viol(std::string(key)+":history-residual","row %d: %.9g recorded, %.9g computed",k,s.absrmsres,a); return false; } if(norms[0]>0&&!(std::fabs(s.rmsres-q)<=1e-6*q+1e-37+flo(k)/norms[0])) { rep.viol(std::string(key)+":history-relative-residual","row %d: %.9g recorded, %.9g computed",k,s.rmsres,q); return false; }
			if(k&&(s.odewalltime<td.convhis[k-1].odewalltime||s.linits<td.convhis[k-1].linits||s.linwalltime<td.convhis[k-1].linwalltime)) { rep.viol(std::string(key)+":history-cumulative","row %d decreases",k); return false; } }
	} else if(td.convhis.size()) { rep.viol(std::string(key)+":history-unrequested","%zu rows",td.convhis.size()); return false; }
	(void)implicit; return true; }
// CFL rules over a recorded history
static bool gCfl=true;
static bool cflRules(const char*key,const TimingData&td,const SteadySolverConfig&cf,const std::vector<double>&norms) {
	if(!gCfl) return true;
	double lo=cf.cflinit,hi=cf.cflfin; for(size_t k=0;k<td.convhis.size();k++) { double c=td.convhis[k].cfl; if(k==0&&!near(c,lo,1e-6,lo)) { rep.viol(std::string(key)+":cfl-start","first CFL %.9g, initial value %.9g",c,lo); return false; } if(c<lo*(1-1e-6)||c>hi*(1+1e-6)) { rep.viol(std::string(key)+":cfl-bounds","step %zu: CFL %.9g outside [%.9g,%.9g]",k,c,lo,hi); return false; }
		if(k>=1&&c>td.convhis[k-1].cfl*(1+1e-6)) { bool fell=k>=2&&norms[k-1]<norms[k-2]*(1+1e-9)+flo(k-1)+flo(k-2); if(k>=2) { if(!fell&&norms[k-1]!=norms[k-2]) { rep.viol(std::string(key)+":cfl-growth","step %zu: CFL rises from %.9g to %.9g though the residual went from %.9g to %.9g",k,td.convhis[k-1].cfl,c,norms[k-2],norms[k-1]); return false; } rep.count("CFL rises after the residual fell"); } else {
				// before the second step only one residual is known: any growth is unfounded; the recorded finding is growth by a power of the inverse absolute norm
				double rr=1/norms[0],ex=lo*(rr>1?std::pow(rr,0.25):std::pow(rr,0.3)); ex=std::min(std::max(ex,lo),hi); rep.viol(near(c,ex,1e-5,ex)?"cfl-growth:second-step:as-found":std::string(key)+":cfl-growth-second-step","step 2: CFL rises from %.9g to %.9g before any residual reduction was seen (norm of the first residual %.6g)",td.convhis[0].cfl,c,norms[0]); } } 
		rep.count("CFL values"); } return true; }

struct KspBox { KSP k=NULL; Mat M=NULL,A=NULL; ~KspBox() { if(k) KSPDestroy(&k); if(A) MatDestroy(&A); if(M) MatDestroy(&M); } };

// relative change rule, exact pressure change and the recorded as-found one
static double dpAsFound(const Gas&G,const double*u,const double*du) { double un[4]; for(int i=0;i<4;i++) un[i]=u[i]+du[i]; double dp=0; for(int i=2;i<4;i++) dp-=((u[i]+un[i])*(u[0]+un[0])/2*du[i]-(un[i]*un[i]+u[i]*u[i])/2*du[0]); return (G.g-1)*(du[3]-dp/(2*u[0]*un[0])); }
static double relax(const Gas&G,const double*u,const double*du,double mf,bool asfound,double*margin=nullptr) { double un[4]; for(int i=0;i<4;i++) un[i]=u[i]+du[i]; double p=rP(G,u),dp=asfound?dpAsFound(G,u,du):rP(G,un)-p; double d=std::max(std::fabs(dp)/p,std::fabs(du[0])/u[0]); if(margin) *margin=std::fabs(d-(1-mf)); if(d<1-mf) return 1-d; return mf; }

// ---- implicit flow: every system posed and every update applied
static void mImplicit(Rng&r) {
	Case c; c.gm=genMesh(r,mopt(r)); c.setGeo(); rndConf(r,c,kAll,40,0.4); c.conf(); setState(r,c,r.lu(1e-2,0.15),r.p(0.5)?1:0); bool mf=r.p(0.3),robust=r.p(0.5); double mfac=r.p(0.1)?1:r.u(0.02,1); double c0=r.lu(0.1,1e3),c1=r.p(0.3)?c0:c0*r.lu(1,1e3); int nst=r.i(1,5),solves=r.p(0.3)?2:1; bool lg=c0==c1?r.p(0.7):true; double tol=r.p(0.3)?r.u(0.3,0.99):r.lu(1e-6,1e-1);
	double amp=r.p(0.3)?r.u(0.1,0.9):r.lu(1e-5,0.1); uint64_t sd=r.next();
	c.desc=c.describe()+sf(" implicit%s %s(%.3g) cfl %.3g..%.3g steps<=%d tol %.3g du %.2g solves %d",mf?" matrix-free":"",robust?"ROBUST":"FULL",mfac,c0,c1,nst,tol,amp,solves); rep.at(rep.cur+" "+c.desc);
	if(refResidual(c,c.u).bad) { rep.count("inadmissible (skipped)"); return; }
	Lib L; L.mesh(c); if(!L.ok) return; L.disc(c); L.set(c.u); const UMesh<freal,NDIM>&m=*L.lm.m; int nl=m.gnelem();
	KspBox K; chk(setupSystemMatrix<4>(&m,&K.M),"setupSystemMatrix"); if(mf) chk(create_matrixfree_jacobian<4>(L.s,&K.A),"create_matrixfree"); KSPCreate(PETSC_COMM_WORLD,&K.k); KSPSetOperators(K.k,mf?K.A:K.M,K.M); KSPSetType(K.k,KSPPREONLY); PC pc; KSPGetPC(K.k,&pc); PCSetType(pc,PCSHELL); Shell S; PCShellSetContext(pc,&S); PCShellSetApply(pc,shellApply);
	Vec w; VecDuplicate(L.u,&w); VecCopy(L.u,w); ghosts(w); S.u=w; createSystemVector(&m,4,&S.probe); VecDuplicate(S.probe,&S.y); U4 v=rndDir(r,c); VD pv(4*nl); for(int e=0;e<nl;e++) for(int i=0;i<4;i++) pv[4*e+i]=v[L.lm.cell[e]][i]; putv(S.probe,pv);
	S.du=[&](int k,const VD&u,VD&d) { for(int e=0;e<nl;e++) { Rng q(mix(sd+k,L.lm.cell[e])); double s=q.p(0.1)?0:1; for(int i=0;i<4;i++) d[4*e+i]=s*amp*q.u(-1,1)*(i==0||i==3?std::fabs(u[4*e+i]):(std::fabs(u[4*e])+std::hypot(u[4*e+1],u[4*e+2]))*(1+0.3/c.G.M)); } };
	SteadySolverConfig cf; cf.lognres=lg; cf.logfile=scratch()+"/log"; cf.write_final_lin_sys=false; cf.cflinit=c0; cf.cflfin=c1; cf.rampstart=0; cf.rampend=1; cf.tol=tol; cf.maxiter=nst; cf.linmaxiterstart=cf.linmaxiterend=1;
	IdealGasPhysics<freal> phy(c.G.g,c.G.M,c.G.Tinf,c.G.Re,c.G.Pr); std::unique_ptr<NonlinearUpdate<4>> upd; if(robust) upd.reset(new FlowSimpleUpdate<4>(phy,mfac)); else upd.reset(new FullUpdate<4>());
	Mat J; chk(setupSystemMatrix<4>(&m,&J),"setupSystemMatrix"); Vec y2; VecDuplicate(S.probe,&y2);
	for(int sv=0;sv<solves;sv++) { S.us.clear(); S.rhs.clear(); S.Ap.clear(); S.Pp.clear(); S.dus.clear(); S.n=0; sd=r.next();
		SteadyBackwardEulerSolver<4> sol(L.s,cf,K.k,upd.get()); int thrown=0; std::string ex; { Quiet q; try { chk(sol.solve(w),"solve"); } catch(const Tolerance_error&e) { thrown=1; } catch(const Numerical_error&e) { thrown=2; } } TimingData td=sol.getTimingData();
		VD uend=getv(w); int n=S.us.size(); if(n==0) { rep.viol("implicit:no-steps","no linear system was solved"); break; }
		// the relaxed updates
		bool stop=false; for(int k=0;k<n&&!stop;k++) { const VD&a=S.us[k],&b=k+1<n?S.us[k+1]:uend; for(int e=0;e<nl&&!stop;e++) { const double*u=&a[4*e],*d=&S.dus[k][4*e]; double om=1,om2=1,mg=1,mg2=1; if(robust) { om=relax(c.G,u,d,mfac,false,&mg); om2=relax(c.G,u,d,mfac,true,&mg2); }
				double bad1=0,bad2=0,bad3=0; double sc=0; for(int i=0;i<4;i++) sc=std::max(sc,std::fabs(u[i])+std::fabs(d[i])); for(int i=0;i<4;i++) { double z=std::fabs(u[i])+std::fabs(d[i])+1e-300; bad1=std::max(bad1,std::fabs(b[4*e+i]-(u[i]+om*d[i]))/z); bad2=std::max(bad2,std::fabs(b[4*e+i]-(u[i]+om2*d[i]))/z); bad3=std::max(bad3,std::fabs(b[4*e+i]-(u[i]+mfac*d[i]))/z); if(!std::isfinite(b[4*e+i])&&std::isfinite(u[i]+om*d[i])) bad1=bad2=bad3=1e300; }
				double t=1e-9+(robust?1e-9/std::max(1e-9,std::fabs(rP(c.G,u)/sc)):0); if(!(bad1<=t||bad2<=t||((mg<1e-6||mg2<1e-6)&&bad3<=1e-5))) { rep.viol("implicit:update","step %d cell %d: state went from (%.9g %.9g %.9g %.9g) to (%.9g %.9g %.9g %.9g), update (%.4g %.4g %.4g %.4g), factor expected %.9g",k,L.lm.cell[e],u[0],u[1],u[2],u[3],b[4*e],b[4*e+1],b[4*e+2],b[4*e+3],d[0],d[1],d[2],d[3],om); stop=true; } rep.count(om<1?"relaxed cell updates":"full cell updates"); } }
		if(stop) break;
		// residual norms at the states, systems
		std::vector<double> norms; bool adm=true; for(int k=0;k<n;k++) { U4 uk(c.gm.el.size()),loc(uk.size(),{{0,0,0,0}}); for(int e=0;e<nl;e++) for(int i=0;i<4;i++) loc[L.lm.cell[e]][i]=S.us[k][4*e+i]; MPI_Allreduce(loc[0].data(),uk[0].data(),4*uk.size(),MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); for(auto&q:uk) if(!(q[0]>0)||!(rP(c.G,q.data())>0)) adm=false; if(!adm) { rep.count("steps from inadmissible states (not compared)"); break; }
			RefRes R=refResidual(c,uk); if(R.bad) { adm=false; rep.count("steps from inadmissible states (not compared)"); break; } // face states can be inadmissible too
			L.set(uk); L.residual(true); VD r0=L.get(L.r),dt=L.get(L.dt); norms.push_back(enorm(m,r0,4)); 
			for(int e=0;e<nl;e++) for(int i=0;i<4;i++) { double sc=R.scale[L.lm.cell[e]][i]; if(!R.skip[L.lm.cell[e]]&&!(std::fabs(S.rhs[k][4*e+i]-r0[4*e+i])<=1e-9*sc)) { rep.viol("implicit:rhs","step %d cell %d variable %d: right-hand side %.15g, minus the residual %.15g (scale %.3g)",k,L.lm.cell[e],i,S.rhs[k][4*e+i],r0[4*e+i],sc); e=nl; stop=true; break; } } if(stop) break;
			// pseudo-time term from the recorded CFL number
			double cfl=c0==c1?c0:(int)td.convhis.size()>k?td.convhis[k].cfl:-1; if(cfl<=0) { rep.count("steps without a recorded CFL"); continue; } VD pt(4*nl); for(int e=0;e<nl;e++) for(int i=0;i<4;i++) pt[4*e+i]=m.garea(e)/(cfl*dt[e])*pv[4*e+i]; double ct=c0==c1?1e-11:3e-7;
			MatZeroEntries(J); L.s->assemble_jacobian(L.u,J); MatAssemblyBegin(J,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(J,MAT_FINAL_ASSEMBLY); MatMult(J,S.probe,y2); VD jv=getv(y2); RefJv rj=refJv(c,uk,v); if(rj.bad) { rep.count("steps from inadmissible states (not compared)"); continue; }
			for(int e=0;e<nl;e++) for(int i=0;i<4;i++) { int q=4*e+i,ke=L.lm.cell[e]; double er=std::fabs(S.Pp[k][q]-jv[q]-pt[q])-(1e-10*rj.scale[ke][i]+ct*std::fabs(pt[q])); if(!(er<=0)) { rep.viol("implicit:operator","step %d cell %d variable %d: matrix times probe %.15g, Jacobian part %.15g, pseudo-time part %.15g (CFL %.9g)",k,ke,i,S.Pp[k][q],jv[q],pt[q],cfl); e=nl; stop=true; break; } } if(stop) break;
			checkJv(c,uk,v,L.lm.cell,S.Pp[k],"implicit:matrix",2e-9*std::max(1.,c.G.M*c.G.M/9)+ct,&pt);
			if(!mf) { if(S.Ap[k]!=S.Pp[k]) rep.viol("implicit:two-operators","step %d",k); }
			else { double nrm=0,s2=0; for(double q:pv) s2+=q*q; MPI_Allreduce(&s2,&nrm,1,MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); nrm=std::sqrt(nrm); std::vector<VD> D; for(double h:{1e-7,-1e-7,3e-7,-3e-7}) { VD q(S.us[k]); for(size_t z=0;z<q.size();z++) q[z]+=h/nrm*pv[z]; L.put(L.u,q); ghosts(L.u); L.residual(false); VD rr=L.get(L.r); for(size_t z=0;z<rr.size();z++) rr[z]=-(rr[z]-r0[z])/(h/nrm); D.push_back(rr); }
				for(int e=0;e<nl&&!stop;e++) { int ke=L.lm.cell[e]; if(R.skip[ke]) continue; bool kink=false; double tl[4]; for(int i=0;i<4;i++) { int q=4*e+i; double lo=1e300,hi=-1e300; for(auto&d:D) { lo=std::min(lo,d[q]); hi=std::max(hi,d[q]); } double s=1e-5*std::max(std::fabs(lo),std::fabs(hi))+2e-7*R.scale[ke][i]*nrm; if(hi-lo>1e-3*std::max(std::fabs(lo),std::fabs(hi))+20*s) kink=true; tl[i]=3*(s+hi-lo)+ct*std::fabs(pt[q]); } if(kink) { rep.count("cells at a kink of the residual (skipped)"); continue; } for(int i=0;i<4;i++) { int q=4*e+i; if(!(std::fabs(S.Ap[k][q]-pt[q]-D[0][q])<=tl[i])) { rep.viol("implicit:matrix-free-operator","step %d cell %d variable %d: operator times probe %.12g, expected %.12g + %.12g",k,ke,i,S.Ap[k][q],pt[q],D[0][q]); stop=true; break; } } } rep.count("matrix-free operators compared"); }
			if(stop) break; rep.count("implicit steps compared"); rep.maxi("largest CFL",cfl); }
		if(stop) break;
		if(adm&&thrown!=2) { if(cf.lognres) for(int k=0;k<n&&k<(int)td.convhis.size();k++) if(td.convhis[k].linits!=k+1) { rep.viol("implicit:linear-iterations","row %d records %d cumulative linear iterations, %d were made",k,td.convhis[k].linits,k+1); break; }
			if(!outcome("implicit",td,cf,norms,n,thrown,true,false)) break; if(cf.lognres) { if(!cflRules("implicit",td,cf,norms)) break; } 
			if(td.total_lin_iters!=n) rep.viol("implicit:total-linear-iterations","%d recorded, %d made",td.total_lin_iters,n); }
		rep.eval(mix(hashs(c.desc),hashd(uend.data(),uend.size())),c.gm.el.size()>1); if(sv) rep.count("second solves with the same operators"); if(!adm) break; }
	rep.sample(c.desc); VecDestroy(&w); VecDestroy(&S.probe); VecDestroy(&S.y); VecDestroy(&y2); MatDestroy(&J); }

// ---- explicit flow
static void mExplicit(Rng&r) {
	Case c; c.gm=genMesh(r,mopt(r)); c.setGeo(); rndConf(r,c,kAll,40,0.5); c.conf(); setState(r,c,r.lu(1e-2,0.15),r.p(0.5)?1:0); double cfl=r.lu(0.01,0.5); int nst=r.i(1,8); double tol=r.p(0.4)?r.u(0.5,0.99):r.lu(1e-6,1e-1); bool lg=r.p(0.7);
	c.desc=c.describe()+sf(" explicit cfl %.3g steps<=%d tol %.3g",cfl,nst,tol); rep.at(rep.cur+" "+c.desc); if(refResidual(c,c.u).bad) { rep.count("inadmissible (skipped)"); return; }
	Lib L; L.mesh(c); if(!L.ok) return; L.disc(c); L.set(c.u); const UMesh<freal,NDIM>&m=*L.lm.m; int nl=m.gnelem(); Spy<4> spy(&m,L.s); Vec w; VecDuplicate(L.u,&w); VecCopy(L.u,w); ghosts(w);
	SteadySolverConfig cf; cf.lognres=lg; cf.logfile=scratch()+"/log"; cf.write_final_lin_sys=false; cf.cflinit=cfl; cf.cflfin=cfl*r.u(1,10); cf.rampstart=0; cf.rampend=1; cf.tol=tol; cf.maxiter=nst; cf.linmaxiterstart=cf.linmaxiterend=1;
	SteadyForwardEulerSolver<4> sol(&spy,w,cf); int thrown=0; { Quiet q; try { chk(sol.solve(w),"solve"); } catch(const Tolerance_error&) { thrown=1; } catch(const Numerical_error&) { thrown=2; } } TimingData td=sol.getTimingData(); VD uend=getv(w);
	if(spy.staleGhost) rep.viol("explicit:stale-ghosts","a residual was computed with outdated values of neighbouring subdomains");
	std::vector<VD> st; for(auto&q:spy.log) if(q.gdt) st.push_back(q.u); int n=st.size(); if(!n) { rep.viol("explicit:no-steps","no residual computed"); VecDestroy(&w); return; } std::vector<double> norms; bool adm=true;
	for(int k=0;k<n;k++) { U4 uk(c.gm.el.size()),loc(uk.size(),{{0,0,0,0}}); for(int e=0;e<nl;e++) for(int i=0;i<4;i++) loc[L.lm.cell[e]][i]=st[k][4*e+i]; MPI_Allreduce(loc[0].data(),uk[0].data(),4*uk.size(),MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); for(auto&q:uk) if(!(q[0]>0)||!(rP(c.G,q.data())>0)) adm=false; RefRes R; if(adm) { R=refResidual(c,uk); if(R.bad) adm=false; } if(!adm) { rep.count("steps from inadmissible states (not compared)"); break; }
		L.set(uk); L.residual(true); VD r0=L.get(L.r),dt=L.get(L.dt); norms.push_back(enorm(m,r0,4)); const VD&b=k+1<n?st[k+1]:uend; bool bad=false;
		for(int e=0;e<nl&&!bad;e++) for(int i=0;i<4;i++) { int ke=L.lm.cell[e]; if(R.skip[ke]) continue; double f=cfl*dt[e]/m.garea(e),ex=st[k][4*e+i]+f*r0[4*e+i]; if(!(std::fabs(b[4*e+i]-ex)<=1e-9*f*R.scale[ke][i]+1e-13*std::fabs(ex))) { rep.viol("explicit:update","step %d cell %d variable %d: %.15g -> %.15g, expected %.15g",k,ke,i,st[k][4*e+i],b[4*e+i],ex); bad=true; break; } } if(bad) { VecDestroy(&w); return; } rep.count("explicit steps compared"); 
		if(lg&&k<(int)td.convhis.size()&&!near(td.convhis[k].cfl,cfl,1e-6,cfl)) { rep.viol("explicit:recorded-cfl","row %d: %.9g, used %.9g",k,td.convhis[k].cfl,cfl); VecDestroy(&w); return; } }
	if(adm&&thrown!=2) outcome("explicit",td,cf,norms,n,thrown,false,false);
	rep.eval(mix(hashs(c.desc),hashd(uend.data(),uend.size())),c.gm.el.size()>1); rep.sample(c.desc); VecDestroy(&w); }

// ---- scripted residual histories: termination, records, CFL
template<int NV> static void mScript(Rng&r) {
	bool lng=r.p(0.06); MOpt mo=mopt(r); if(lng) mo.nmax=std::max(mo.nmin,4); GMesh gm=genMesh(r,mo); Geo G(gm); LMesh lm; bool imp=r.p(0.6); int n=lng?r.i(60,400):r.i(1,25); std::vector<double> s(n+30); int kind=r.i(0,6); double s0=r.lu(1e-6,1e6); double tol=r.p(0.1)?0.:r.p(0.04)?r.u(1,3):r.lu(1e-9,0.95);
	static const char*kn[]={"convergent","stalling","diverging","oscillating","NaN","infinite","zero"}; double q=r.u(0.2,0.95); if(lng) q=std::pow(tol>0&&tol<1?tol:1e-6,1/(n*r.u(0.6,1.3))); int bad=r.i(0,n+2); double lv=1; for(size_t k=0;k<s.size();k++) { switch(kind) { case 0: lv=std::pow(q,k); break; case 1: lv=std::max(std::pow(q,k),tol*r.u(1.01,3)); break; case 2: lv=std::pow(1/q,k); break; case 3: lv=k?r.lu(1e-3,10):1; break; default: lv=std::pow(q,0.3*k); } s[k]=s0*lv; }
	if(kind>=4) for(size_t k=bad;k<s.size();k++) s[k]=kind==4?NAN:kind==5?(r.p(0.5)?INFINITY:-INFINITY):0; double c0=r.lu(1e-2,1e4),c1=r.p(0.2)?c0:c0*r.lu(1,1e4); int maxit=r.p(0.05)?r.i(-2,0):r.p(0.15)?1:n; bool lg=r.p(0.8);
	std::string desc=gm.desc+sf(" NV%d %s %s residuals from %.3g, event at %d, tolerance %.3g, at most %d steps, cfl %.3g..%.3g",NV,imp?"implicit":"explicit",kn[kind],s0,kind>=4?bad:-1,tol,maxit,c0,c1); rep.at(rep.cur+" "+desc); if(!lm.build(gm,G,meshFile(gm))) return; const UMesh<freal,NDIM>&m=*lm.m; int nl=m.gnelem(); Spy<NV> spy(&m,nullptr); double at=0; for(double a:G.area) at+=a; int nanwhere=r.i(0,gm.el.size()-1);
	spy.script=[&](int k,const VD&u,VD&res,VD&dt) { for(int e=0;e<nl;e++) { double v=s[std::min<size_t>(k,s.size()-1)]; for(int i=0;i<NV;i++) res[NV*e+i]+= i==NV-1? (std::isfinite(v)||lm.cell[e]==nanwhere? v:1)*(lm.cell[e]%2?1:-1)/std::sqrt(at) : (std::isfinite(v)?0.3*v:1); if(dt.size()) dt[e]=0.5+lm.cell[e]*0.1; } };
	Vec w; createGhostedSystemVector(&m,NV,&w); VD u0(NV*nl); for(int e=0;e<nl;e++) for(int i=0;i<NV;i++) { Rng z(mix(77,lm.cell[e]*NV+i)); u0[NV*e+i]=z.u(0.5,2); } putv(w,u0); ghosts(w);
	SteadySolverConfig cf; cf.lognres=lg; cf.logfile=scratch()+"/log"; cf.write_final_lin_sys=false; cf.cflinit=c0; cf.cflfin=c1; cf.rampstart=0; cf.rampend=1; cf.tol=tol; cf.maxiter=maxit; cf.linmaxiterstart=cf.linmaxiterend=1;
	KspBox K; FullUpdate<NV> upd; Shell S; std::unique_ptr<SteadySolver<NV>> sol; PC pc; VD ulast=u0; int nsteps=0; S.probe=S.y=NULL;
	if(imp) { chk(setupSystemMatrix<NV>(&m,&K.M),"setupSystemMatrix"); KSPCreate(PETSC_COMM_WORLD,&K.k); KSPSetOperators(K.k,K.M,K.M); KSPSetType(K.k,KSPPREONLY); KSPGetPC(K.k,&pc); PCSetType(pc,PCSHELL); PCShellSetContext(pc,&S); PCShellSetApply(pc,shellApply); S.u=w; createSystemVector(&m,NV,&S.probe); VecDuplicate(S.probe,&S.y); VecSet(S.probe,1); S.du=[&](int k,const VD&u,VD&d) { for(size_t z=0;z<d.size();z++) d[z]=1e-3*std::cos(z+k); }; sol.reset(new SteadyBackwardEulerSolver<NV>(&spy,cf,K.k,&upd)); }
	else sol.reset(new SteadyForwardEulerSolver<NV>(&spy,w,cf));
	int thrown=0; { Quiet z; try { chk(sol->solve(w),"solve"); } catch(const Tolerance_error&) { thrown=1; } catch(const Numerical_error&) { thrown=2; } } TimingData td=sol->getTimingData(); VD uend=getv(w); nsteps=spy.nscr;
	if(tol>=1&&maxit>0) { if(thrown==1||nsteps>1) rep.viol("script:nothing-to-do","%d steps, outcome %d with a relative tolerance of %.3g",nsteps,thrown,tol); rep.count("solves with nothing to do"); }
	else if(maxit<=0) { if(nsteps||thrown||uend!=u0) rep.viol("script:no-steps-allowed","%d steps, outcome %d, state %s with a limit of %d",nsteps,thrown,uend==u0?"kept":"changed",maxit); rep.count("solves without steps"); }
	else { std::vector<double> norms(s.begin(),s.end()); double per=0; { double z=0; for(double a:G.area) z+=a/at; per=z; } (void)per; for(double&v:norms) v=std::fabs(v);
		if(outcome("script",td,cf,norms,nsteps,thrown,imp,true)) { if(imp&&lg) cflRules("script",td,cf,norms); if(!imp&&lg) for(auto&z:td.convhis) if(!near(z.cfl,c0,1e-6,c0)) { rep.viol("script:explicit-cfl","%.9g recorded, %.9g set",z.cfl,c0); break; } }
		// last iterate: the state the next residual would have seen
		if(spy.staleGhost) rep.viol("script:stale-ghosts","a residual was computed with outdated values of neighbouring subdomains");
		if(thrown!=2) { VD ex=u0; for(int k=0;k<nsteps;k++) for(int e=0;e<nl;e++) for(int i=0;i<NV;i++) { int z=NV*e+i; if(imp) ex[z]+=S.dus[k][z]; else { double v=s[k],rr= i==NV-1? v*(lm.cell[e]%2?1:-1)/std::sqrt(at):0.3*v; ex[z]+=c0*(0.5+lm.cell[e]*0.1)/m.garea(e)*rr; } } for(size_t z=0;z<ex.size();z++) { double sc=std::fabs(u0[z]); for(int k=0;k<nsteps;k++) sc+= imp?1e-3:c0*(0.5+lm.cell[z/NV]*0.1)/m.garea(z/NV)*std::fabs(s[k])*(1+1/std::sqrt(at)); if(!(std::fabs(uend[z]-ex[z])<=1e-12*sc*(nsteps+1))) { rep.viol("script:last-iterate","entry %zu: %.15g, expected %.15g after %d steps",z,uend[z],ex[z],nsteps); break; } } }
		if(imp) for(int k=0;k<nsteps&&k<(int)td.convhis.size();k++) { if(!std::isfinite(s[k])) break; bool st=false; for(int e=0;e<nl&&!st;e++) for(int i=0;i<NV;i++) { double d=m.garea(e)/(td.convhis[k].cfl*(0.5+lm.cell[e]*0.1)); if(!near(S.Pp[k][NV*e+i],d,1e-6,d)) { rep.viol("script:pseudo-time-term","step %d cell %d: diagonal %.12g, area/(CFL dt) %.12g",k,lm.cell[e],S.Pp[k][NV*e+i],d); st=true; break; } } if(st) break; } }
	rep.eval(hashs(desc),gm.el.size()>1); rep.count(std::string(kn[kind])+(imp?" implicit":" explicit")); rep.count("steps",nsteps); if(nsteps>100) rep.count("solves with over 100 steps"); rep.sample(desc); VecDestroy(&w); if(imp) { VecDestroy(&S.probe); VecDestroy(&S.y); } }

// ---- update relaxation
static void mRelax(Rng&r) {
	for(int t=0;t<20;t++) { Gas G=rndGas(r); double mf=r.p(0.05)?1:r.p(0.1)?r.lu(1e-6,1e-2):r.u(0.01,1); double u[4],du[4]; rndState(r,G,u); double amp=r.p(0.05)?0:r.p(0.3)?r.u(0.5,3):r.lu(1e-8,1); for(int i=0;i<4;i++) du[i]=amp*r.u(-1,1)*(i==0||i==3?u[i]:(u[0]+std::hypot(u[1],u[2]))); if(r.p(0.1)) for(int i=1;i<4;i++) du[i]=0; if(r.p(0.1)) for(int i=0;i<3;i++) du[i]=0; if(u[0]+du[0]==0) continue;
		IdealGasPhysics<freal> phy(G.g,G.M,G.Tinf,G.Re,G.Pr); FlowParserOptions o; o.gamma=G.g; o.Minf=G.M; o.Tinf=G.Tinf; o.Reinf=G.Re; o.Pr=G.Pr; o.min_nl_update=mf; o.nl_update_scheme="ROBUST_FLOW"; std::unique_ptr<const NonlinearUpdate<4>> f; if(r.p(0.5)) f.reset(new FlowSimpleUpdate<4>(phy,mf)); else f.reset(create_const_nonlinearUpdateScheme<4>(o)); rep.at(sf("gamma %.6g M %.6g min %.9g u (%.17g %.17g %.17g %.17g) du (%.17g %.17g %.17g %.17g)",G.g,G.M,mf,u[0],u[1],u[2],u[3],du[0],du[1],du[2],du[3]));
		double w=f->getLocalRelaxationFactor(du,u),m1,m2,e1=relax(G,u,du,mf,false,&m1),e2=relax(G,u,du,mf,true,&m2); double p=rP(G,u),sl=1e-12*(u[3]/p*(1+amp*amp*10)*(1+std::fabs(u[0]/(u[0]+du[0])))+1); bool a=std::fabs(w-e1)<=sl||(m1<=10*sl&&w==mf),b=std::fabs(w-e2)<=sl||(m2<=10*sl&&w==mf);
		if(!(w>=mf&&w<=1)) rep.viol("relax:range","factor %.12g outside [%.12g,1]",w,mf); else if(amp==0&&w!=1) rep.viol("relax:zero-update","factor %.12g for a zero update",w); else if(!a&&!b) rep.viol("relax:value","factor %.12g, expected %.12g",w,e1); else if(!a) rep.count("factors agreeing with the recorded pressure-change defect only"); 
		if(amp>1e-6&&mf<0.999&&w==1&&e1!=1&&std::fabs(du[0])>1e-12*u[0]) rep.viol("relax:one","factor one for a non-zero change");
		rep.count(w==mf?"minimum factors":w==1?"unit factors":"intermediate factors"); if(u[0]+du[0]<0) rep.count("updates to negative density");
		FullUpdate<4> fu; if(fu.getLocalRelaxationFactor(du,u)!=1) rep.viol("relax:full","%.12g",fu.getLocalRelaxationFactor(du,u)); o.nl_update_scheme="FULL"; std::unique_ptr<const NonlinearUpdate<4>> ff(create_const_nonlinearUpdateScheme<4>(o)); if(ff->getLocalRelaxationFactor(du,u)!=1) rep.viol("relax:full-by-name","%.12g",ff->getLocalRelaxationFactor(du,u));
		double bad= r.p(0.3)?0:r.p(0.5)?-r.lu(1e-9,10):1+r.lu(1e-9,10); bool th=false; try { FlowSimpleUpdate<4> z(phy,bad); } catch(const std::exception&) { th=true; } if(!th) rep.viol("relax:invalid-minimum","minimum factor %.12g accepted",bad);
		static const char*nm[]={"","full","ROBUST","ROBUST_FLO","ROBUST_FLOWX","Full","NONE","FULL ","robust_flow"}; o.nl_update_scheme=nm[r.i(0,8)]; th=false; const NonlinearUpdate<4>*z=nullptr; try { z=create_const_nonlinearUpdateScheme<4>(o); } catch(const std::exception&) { th=true; } delete z; if(!th) rep.viol("relax:unknown-name","rule '%s' accepted",o.nl_update_scheme.c_str());
		// the documented limits, rounding aside
		o.nl_update_scheme="ROBUST_FLOW"; o.min_nl_update=bad; th=false; z=nullptr; try { z=create_const_nonlinearUpdateScheme<4>(o); } catch(const std::exception&) { th=true; } delete z; if(!th) rep.viol("relax:invalid-minimum-by-name","minimum factor %.12g accepted",bad);
		rep.eval(hashd(u,4)); } }

// ---- Runge-Kutta
static const double RK[4][3][3]={{},{{1,0,1}},{{1,0,1},{.5,.5,.5}},{{1,0,1},{.75,.25,.25},{1./3,2./3,2./3}}};
static void mRK(Rng&r) {
	int order=r.i(1,3); bool flow=r.p(0.5); double cfl=flow?r.lu(0.02,0.6):r.lu(0.01,1.2); int want=r.i(0,6); std::string lf=scratch()+"/rk.log";
	Case c; c.gm=genMesh(r,mopt(r)); c.setGeo(); rndConf(r,c,kAll,30,0.5); c.conf(); setState(r,c,r.lu(1e-2,0.12),r.p(0.3)?1:0); c.desc=c.describe()+sf(" RK%d cfl %.4g %s",order,cfl,flow?"flow":"linear"); rep.at(rep.cur+" "+c.desc); if(flow&&refResidual(c,c.u).bad) { rep.count("inadmissible (skipped)"); return; }
	Lib L; L.mesh(c); if(!L.ok) return; L.disc(c); L.set(c.u); const UMesh<freal,NDIM>&m=*L.lm.m; int nl=m.gnelem(); Spy<4> spy(&m,flow?L.s:nullptr); int ne=c.gm.el.size(); double lam=r.u(0.2,2),dtA=r.lu(1e-3,1),dtB=r.u(0,0.5); uint64_t sd=r.next();
	// linear problem: du/dt = -lambda_e K u in every cell, K a rotation+decay matrix; local steps vary with cell and state
	double K4[4][4]; for(auto&q:K4) for(double&x:q) x=r.u(-1,1); for(int i=0;i<4;i++) K4[i][i]+=1.5; auto lme=[&](int k) { Rng z(mix(sd,k)); return lam*z.u(0.3,1); }; auto dtf=[&](int k,const double*u) { Rng z(mix(sd+1,k)); return dtA*(z.u(0.6,1.4)+dtB*std::tanh(u[0])); };
	spy.script=flow?std::function<void(int,const VD&,VD&,VD&)>():[&](int,const VD&u,VD&res,VD&dt) { for(int e=0;e<nl;e++) { int k=L.lm.cell[e]; for(int i=0;i<4;i++) { double s=0; for(int j=0;j<4;j++) s+=K4[i][j]*u[4*e+j]; res[4*e+i]-=lme(k)*m.garea(e)*s; } if(dt.size()) dt[e]=dtf(k,&u[4*e]); } };
	Vec w; VecDuplicate(L.u,&w); VecCopy(L.u,w); ghosts(w); VD u0=getv(w); 
	// reference integration with the documented coefficients
	std::vector<VD> states; states.push_back(u0); double t=0,T=0; std::vector<double> ts(1,0.); VD u=u0; bool adm=true; std::vector<VD> tolv; VD tolu(4*nl,0.); int maxn=want+1; std::vector<double> dts; std::vector<VD> stages;
	auto resid=[&](const VD&x,VD&res,VD&dt) { if(flow) { L.put(L.u,x); ghosts(L.u); L.residual(true); res=L.get(L.r); dt=L.get(L.dt); } else { res.assign(4*nl,0); dt.assign(nl,0); spy.script(0,x,res,dt); } };
	auto admissible=[&](const VD&x) { int ok=1; for(int e=0;e<nl;e++) if(!(x[4*e]>0.05)||!(rP(c.G,&x[4*e])>0.05/(c.G.g*c.G.M*c.G.M))) ok=0; for(double z:x) if(!std::isfinite(z)) ok=0; int g; MPI_Allreduce(&ok,&g,1,MPI_INT,MPI_MIN,MPI_COMM_WORLD); if(!g||!flow) return (bool)g; U4 uk(ne),loc(ne,{{0,0,0,0}}); for(int e=0;e<nl;e++) for(int i=0;i<4;i++) loc[L.lm.cell[e]][i]=x[4*e+i]; MPI_Allreduce(loc[0].data(),uk[0].data(),4*ne,MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); RefRes R=refResidual(c,uk); if(R.bad) return false; for(char s:R.skip) if(s) return false; return true; };
	for(int k=0;k<maxn&&adm;k++) { VD us=u,res,dt; double dmin=0; for(int s=0;s<order;s++) { if(flow&&!admissible(us)) { adm=false; break; } stages.push_back(us); resid(us,res,dt); if(s==0) { double a=1e300; for(double x:dt) a=std::min(a,x); MPI_Allreduce(&a,&dmin,1,MPI_DOUBLE,MPI_MIN,MPI_COMM_WORLD); } for(int e=0;e<nl;e++) for(int i=0;i<4;i++) { int q=4*e+i; us[q]=RK[order][s][0]*u[q]+RK[order][s][1]*us[q]+RK[order][s][2]*cfl*dmin/m.garea(e)*res[q]; } } if(!adm) break; u=us; t+=cfl*dmin; dts.push_back(cfl*dmin); ts.push_back(t); states.push_back(u); }
	if(!adm&&(int)states.size()<want+1) { rep.count("inadmissible states on the way (skipped)"); VecDestroy(&w); return; }
	// final time inside step `want`
	T= want==0? (r.p(0.5)?0:-1) : ts[want-1]+(ts[want]-ts[want-1])*r.u(0.05,0.95); if(want&&T<1e-10) { VecDestroy(&w); rep.count("final time within rounding (skipped)"); return; }
	{ std::ofstream f(lf); } int ierr=0; try { Quiet q; TVDRKSolver<4> sol(&spy,w,order,lf,cfl); ierr=sol.solve(T); } catch(const std::exception&e) { rep.viol("rk:exception","%s",e.what()); VecDestroy(&w); return; } chk(ierr,"TVDRK solve"); VD ue=getv(w); const VD&ex=states[want];
	if(spy.staleGhost) rep.viol("rk:stale-ghosts","a residual was computed with outdated values of neighbouring subdomains");
	if(!flow&&want) { // exact amplification: I - z + z^2/2 - z^3/6 with matrices, while the time step is the recomputed one
		for(int e=0;e<nl;e++) { double v[4]; for(int i=0;i<4;i++) v[i]=u0[4*e+i]; for(int k=0;k<want;k++) { double term[4],sum[4]; for(int i=0;i<4;i++) term[i]=sum[i]=v[i]; for(int o=1;o<=order;o++) { double nt[4]; for(int i=0;i<4;i++) { nt[i]=0; for(int j=0;j<4;j++) nt[i]-=dts[k]*lme(L.lm.cell[e])*K4[i][j]*term[j]/o; } for(int i=0;i<4;i++) { term[i]=nt[i]; sum[i]+=nt[i]; } } for(int i=0;i<4;i++) v[i]=sum[i]; } double s=0; for(int i=0;i<4;i++) s=std::max({s,std::fabs(v[i]),std::fabs(u0[4*e+i])}); for(int i=0;i<4;i++) if(!(std::fabs(ue[4*e+i]-v[i])<=1e-9*s*std::pow(1+10*cfl*dtA*lam,order*want))) { rep.viol("rk:amplification","order %d cell %d variable %d after %d steps: %.12g, amplification polynomial %.12g",order,L.lm.cell[e],i,want,ue[4*e+i],v[i]); e=nl; break; } } rep.count("linear problems"); }
	for(int e=0;e<nl;e++) for(int i=0;i<4;i++) { int q=4*e+i; double s=0; for(int j=0;j<4;j++) s=std::max({s,std::fabs(ex[4*e+j]),std::fabs(u0[4*e+j])}); double tl=flow?1e-8*(1+want):1e-10*std::pow(1+10*cfl*dtA*lam,order*want); if(!(std::fabs(ue[q]-ex[q])<=tl*s)) { rep.viol(want==0?"rk:no-steps":"rk:state","order %d cell %d variable %d after %d steps to time %.6g: %.15g expected %.15g (start %.9g)",order,L.lm.cell[e],i,want,T,ue[q],ex[q],u0[q]); e=nl; break; } }
	// residuals are evaluated at the stage states
	size_t ns=(size_t)want*order; if(spy.log.size()!=ns) rep.viol("rk:evaluations","%zu residual evaluations for %d steps of order %d",spy.log.size(),want,order); rep.count("steps",want); rep.count(sf("order %d",order)); rep.eval(mix(hashs(c.desc),want),ne>1); rep.sample(c.desc); VecDestroy(&w); }

// ---- real solves with a Krylov solver, to convergence or not
static void mSolve(Rng&r) {
	gFloor.clear();
	bool diff=r.p(0.5); KspBox K; MOpt o=mopt(r); o.nmin=std::max(o.nmin,3); o.nmax=7; double tol=r.lu(1e-10,1e-2); int maxit=r.p(0.7)?400:r.i(1,20); double rt=1e-12;
	if(diff) { GMesh gm=genMesh(r,o); Geo G(gm); LMesh lm; double nu=r.lu(1e-2,1e2),bv=r.u(-3,3),k0=r.u(-2,2); int gs=GR_NONE; bool imp=r.p(0.7); double c0=r.lu(1,1e4),c1=r.p(0.3)?c0:c0*r.lu(1,1e4); if(!imp) { c0=c1=r.u(0.02,0.1); maxit=std::min(maxit,60); } bool conv0=r.p(0.1); if(conv0) k0=0; std::string desc=gm.desc+sf(" diffusion nu=%.3g b=%.3g s=%.3g %s cfl %.3g..%.3g tol %.3g steps<=%d",nu,bv,k0,imp?"implicit":"explicit",c0,c1,tol,maxit); rep.at(rep.cur+" "+desc); if(!lm.build(gm,G,meshFile(gm))) return; const UMesh<freal,NDIM>&m=*lm.m; int nl=m.gnelem(),ne=gm.el.size(); Ref R(gm,G);
		DiffusionMA<1> d(&m,nu,bv,[=](const freal*x,const freal,const freal*,freal*s) { s[0]=k0*(1+x[0]); },gradName[gs]); Spy<1> spy(&m,&d); Vec w; createGhostedSystemVector(&m,1,&w); { VD z(nl); for(int e=0;e<nl;e++) { Rng q(mix(5,lm.cell[e])); z[e]=conv0?bv:q.u(-1,1); } putv(w,z); ghosts(w); }
		SteadySolverConfig cf; cf.lognres=true; cf.logfile=scratch()+"/log"; cf.write_final_lin_sys=false; cf.cflinit=c0; cf.cflfin=c1; cf.rampstart=0; cf.rampend=1; cf.tol=tol; cf.maxiter=maxit; cf.linmaxiterstart=cf.linmaxiterend=1; FullUpdate<1> fu; std::unique_ptr<SteadySolver<1>> sol;
		if(imp) { chk(setupSystemMatrix<1>(&m,&K.M),"setupSystemMatrix"); KSPCreate(PETSC_COMM_WORLD,&K.k); KSPSetOperators(K.k,K.M,K.M); KSPSetType(K.k,KSPGMRES); KSPGMRESSetRestart(K.k,300); PC pc; KSPGetPC(K.k,&pc); PCSetType(pc,PCJACOBI); KSPSetTolerances(K.k,rt,1e-300,1e5,2000); sol.reset(new SteadyBackwardEulerSolver<1>(&spy,cf,K.k,&fu)); } else sol.reset(new SteadyForwardEulerSolver<1>(&spy,w,cf));
		int thrown=0; { Quiet q; try { chk(sol->solve(w),"solve"); } catch(const Tolerance_error&) { thrown=1; } catch(const Numerical_error&) { thrown=2; } } TimingData td=sol->getTimingData(); VD ue=getv(w); std::vector<double> norms; Vec rr; VecDuplicate(w,&rr); Vec wk; VecDuplicate(w,&wk); Vec dtv; createSystemVector(&m,1,&dtv);
		if(spy.staleGhost) rep.viol("solve:stale-ghosts","a residual was computed with outdated values of neighbouring subdomains");
		std::vector<VD> st; for(auto&q:spy.log) if(q.gdt) st.push_back(q.u); int n=st.size(); VD dt(nl); bool stop=false; std::vector<VD> rs; for(int k=0;k<n;k++) { putv(wk,st[k]); ghosts(wk); VecSet(rr,0); d.compute_residual(wk,rr,true,dtv); VecGhostUpdateBegin(rr,ADD_VALUES,SCATTER_REVERSE); VecGhostUpdateEnd(rr,ADD_VALUES,SCATTER_REVERSE); VD q=getv(rr); dt=getv(dtv); norms.push_back(enorm(m,q,1)); rs.push_back(q); putv(wk,jiggle(st[k])); ghosts(wk); VecSet(rr,0); d.compute_residual(wk,rr,false,dtv); VecGhostUpdateBegin(rr,ADD_VALUES,SCATTER_REVERSE); VecGhostUpdateEnd(rr,ADD_VALUES,SCATTER_REVERSE); VD q2=getv(rr); for(int e=0;e<nl;e++) q2[e]-=q[e]; gFloor.push_back(30*enorm(m,q2,1)); }
		// every step: (area/(CFL dt) I + J) du = -r, respectively the explicit update
		Mat J; setupSystemMatrix<1>(&m,&J); Vec x,y; createSystemVector(&m,1,&x); VecDuplicate(x,&y); for(int k=0;k<n&&k<(int)td.convhis.size()&&!stop;k++) { const VD&b=k+1<n?st[k+1]:ue; VD du(nl),js(nl,0.); for(int e=0;e<nl;e++) du[e]=b[e]-st[k][e]; double cfl=td.convhis[k].cfl; if(!imp) { for(int e=0;e<nl;e++) { double f=c0*dt[e]/m.garea(e); if(!(std::fabs(du[e]-f*rs[k][e])<=1e-11*(std::fabs(f*rs[k][e])+std::fabs(st[k][e])))) { rep.viol("solve:explicit-step","step %d cell %d: change %.12g expected %.12g",k,lm.cell[e],du[e],f*rs[k][e]); stop=true; break; } } rep.count("explicit diffusion steps compared"); continue; }
			putv(wk,st[k]); ghosts(wk); MatZeroEntries(J); d.assemble_jacobian(wk,J); MatAssemblyBegin(J,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(J,MAT_FINAL_ASSEMBLY); putv(x,du); MatMult(J,x,y); VD jd=getv(y); double e2=0,r2=0,rn=0; for(int e=0;e<nl;e++) { double sc=0; int ke=lm.cell[e]; for(int f:G.cf[ke]) { P2 z=R.dr(f); sc+=nu*G.f[f].len/std::hypot(z[0],z[1])*3; } double a=m.garea(e)/(cfl*dt[e]); double res=a*du[e]+jd[e]-rs[k][e]; e2+=res*res; double fl=(sc+a)*(std::fabs(st[k][e])+std::fabs(b[e])+1)*1e-13+a*std::fabs(du[e])*2e-7; rn+=fl*fl; r2+=rs[k][e]*rs[k][e]; } double z[3]={e2,r2,rn},g[3]; MPI_Allreduce(z,g,3,MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); double er=std::sqrt(g[0]),al=std::sqrt(g[2])*10+1e-8*std::sqrt(g[1]); if(!(er<=al)) { rep.viol("solve:implicit-step","step %d: linear system left with residual %.6g (right-hand side %.6g, allowed %.3g, CFL %.6g)",k,er,std::sqrt(g[1]),al,cfl); stop=true; } rep.count("implicit diffusion steps compared"); }
		if(!stop&&outcome("solve",td,cf,norms,n,thrown,imp,false)) { if(imp) cflRules("solve",td,cf,norms); if(thrown==0&&norms[0]>0) { // converged: compare with the discrete solution of the reference operator
				std::vector<double> full(ne,0),all(ne); for(int e=0;e<nl;e++) full[lm.cell[e]]=ue[e]; MPI_Allreduce(full.data(),all.data(),ne,MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); double s=0,s0=norms[0]; std::vector<double> q(ne,0.); double fs=0; for(size_t f=0;f<G.f.size();f++) { const Geo::F&F=G.f[f]; P2 z=R.dr(f); double d2=z[0]*z[0]+z[1]*z[1]; double uR=F.R>=0?all[F.R]:2*bv-all[F.L]; double fl=-nu*F.len*(uR-all[F.L])*(z[0]*F.nx+z[1]*F.ny)/d2; q[F.L]-=fl; if(F.R>=0) q[F.R]+=fl; fs=std::max(fs,nu*F.len/std::sqrt(d2)*(std::fabs(uR)+std::fabs(all[F.L]))); } double am=0; for(int e=0;e<ne;e++) { q[e]+=k0*(1+G.cc[e][0])*G.area[e]; s+=q[e]*q[e]*G.area[e]; am=std::max(am,G.area[e]); } s=std::sqrt(s); if(!(s<=3*tol*s0+1e-11*fs*std::sqrt(am*ne))) rep.viol("solve:diffusion-solution","converged solution leaves residual %.6g of initial %.6g, tolerance %.3g",s,s0,tol); rep.count("converged diffusion solutions verified"); } }
		rep.eval(hashs(desc)); rep.count(imp?"implicit diffusion solves":"explicit diffusion solves"); rep.sample(desc); MatDestroy(&J); for(Vec*v:{&w,&rr,&wk,&dtv,&x,&y}) VecDestroy(v); return; }
	// flow around the free stream
	Case c; c.gm=genMesh(r,o); c.setGeo(); rndConf(r,c,{B_FAR,B_SLIP,B_INOUT,B_EXTRAP},30,0.2); c.conf(); setState(r,c,r.lu(1e-3,0.05),0); bool mf=r.p(0.25); maxit=std::min(maxit,25); double c0=r.lu(1,1e2),c1=r.p(0.3)?c0:c0*r.lu(1,1e2); c.desc=c.describe()+sf(" solve%s cfl %.3g..%.3g tol %.3g steps<=%d",mf?" matrix-free":"",c0,c1,tol,maxit); rep.at(rep.cur+" "+c.desc); if(refResidual(c,c.u).bad) { rep.count("inadmissible (skipped)"); return; }
	Lib L; L.mesh(c); if(!L.ok) return; L.disc(c); L.set(c.u); const UMesh<freal,NDIM>&m=*L.lm.m; int nl=m.gnelem(); Spy<4> spy(&m,L.s); Vec w; VecDuplicate(L.u,&w); VecCopy(L.u,w); ghosts(w); SteadySolverConfig cf; cf.lognres=true; cf.logfile=scratch()+"/log"; cf.write_final_lin_sys=false; cf.cflinit=c0; cf.cflfin=c1; cf.rampstart=0; cf.rampend=1; cf.tol=tol; cf.maxiter=maxit; cf.linmaxiterstart=cf.linmaxiterend=1; FullUpdate<4> fu;
	chk(setupSystemMatrix<4>(&m,&K.M),"setupSystemMatrix"); if(mf) chk(create_matrixfree_jacobian<4>(&spy,&K.A),"matrixfree"); KSPCreate(PETSC_COMM_WORLD,&K.k); KSPSetOperators(K.k,mf?K.A:K.M,K.M); KSPSetType(K.k,KSPGMRES); KSPGMRESSetRestart(K.k,200); PC pc; KSPGetPC(K.k,&pc); PCSetType(pc,PCBJACOBI); KSPSetTolerances(K.k,mf?1e-3:1e-9,1e-300,1e5,mf?40:400);
	SteadyBackwardEulerSolver<4> sol(&spy,cf,K.k,&fu); int thrown=0; { Quiet q; try { chk(sol.solve(w),"solve"); } catch(const Tolerance_error&) { thrown=1; } catch(const Numerical_error&) { thrown=2; } } TimingData td=sol.getTimingData(); VD ue=getv(w); if(spy.staleGhost) rep.viol("solve:stale-ghosts","a residual was computed with outdated values of neighbouring subdomains");
	std::vector<VD> st; for(auto&q:spy.log) if(q.gdt) st.push_back(q.u); int n=st.size(); std::vector<double> norms; bool adm=true,stop=false; Mat J; setupSystemMatrix<4>(&m,&J); Vec x,y; createSystemVector(&m,4,&x); VecDuplicate(x,&y);
	for(int k=0;k<n;k++) { int ok=1,g; for(int e=0;e<nl;e++) if(!(st[k][4*e]>0)||!(rP(c.G,&st[k][4*e])>0)) ok=0; MPI_Allreduce(&ok,&g,1,MPI_INT,MPI_MIN,MPI_COMM_WORLD); if(!g) { adm=false; break; } L.put(L.u,st[k]); ghosts(L.u); L.residual(true); VD r0=L.get(L.r),dt=L.get(L.dt); norms.push_back(enorm(m,r0,4)); { L.put(L.u,jiggle(st[k])); ghosts(L.u); L.residual(false); VD q2=L.get(L.r); for(size_t e=0;e<q2.size();e++) q2[e]-=r0[e]; gFloor.push_back(30*enorm(m,q2,4)); L.put(L.u,st[k]); ghosts(L.u); } if(mf||k>=(int)td.convhis.size()||stop) continue; const VD&b=k+1<n?st[k+1]:ue; VD du(4*nl); for(int q=0;q<4*nl;q++) du[q]=b[q]-st[k][q]; MatZeroEntries(J); L.s->assemble_jacobian(L.u,J); MatAssemblyBegin(J,MAT_FINAL_ASSEMBLY); MatAssemblyEnd(J,MAT_FINAL_ASSEMBLY); L.put(x,du); MatMult(J,x,y); VD jd=L.get(y); PetscReal an; MatNorm(J,NORM_INFINITY,&an); { int fin=1,af; for(double t:dt) if(!std::isfinite(t)) fin=0; MPI_Allreduce(&fin,&af,1,MPI_INT,MPI_MIN,MPI_COMM_WORLD); if(!af) { rep.count("steps without a finite local time step (skipped)"); continue; } } double z[4]={0,0,0,0},gg[4]; for(int q=0;q<4*nl;q++) { double a=m.garea(q/4)/(td.convhis[k].cfl*dt[q/4]); double e=a*du[q]+jd[q]-r0[q]; z[0]+=e*e; z[1]+=r0[q]*r0[q]; double f=(an+a)*(std::fabs(b[q])+std::fabs(st[k][q]))*1e-13+a*std::fabs(du[q])*3e-7; z[2]+=f*f; } MPI_Allreduce(z,gg,4,MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); double er=std::sqrt(gg[0]),al=40*std::sqrt(gg[2])+5e-5*std::sqrt(gg[1]); if(!(er<=al)) { rep.viol("solve:implicit-flow-step","step %d: linear system left with residual %.6g (right-hand side %.6g, allowed %.3g, CFL %.6g)",k,er,std::sqrt(gg[1]),al,td.convhis[k].cfl); stop=true; } rep.count("implicit flow steps compared"); }
	if(adm&&!stop&&thrown!=2) if(outcome("solve",td,cf,norms,n,thrown,true,false)) cflRules("solve",td,cf,norms); if(!adm) rep.count("solves through inadmissible states (outcome not compared)");
	rep.eval(hashs(c.desc)); rep.count("implicit flow solves"); rep.sample(c.desc); MatDestroy(&J); VecDestroy(&x); VecDestroy(&y); VecDestroy(&w); }

int main(int argc,char**argv) { wideGas=false;
	std::string m=argv[1]; if(argc>2&&std::string(argv[2])=="nocfl") gCfl=false; Petsc P(argc,argv);
	runCases([&](Rng&r,long) { if(m=="implicit") mImplicit(r); else if(m=="explicit") mExplicit(r); else if(m=="script") { if(r.p(0.5)) mScript<4>(r); else mScript<1>(r); } else if(m=="relax") mRelax(r); else if(m=="rk") mRK(r); else if(m=="solve") mSolve(r); });
}
