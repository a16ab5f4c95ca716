// Whole steady runs: SteadyFlowCase in process and the program fvens_steady, against the same phases composed here from the discretisation and the solvers.
#include <iostream>
#include <fstream>
#include <sstream>
#include "prog.hpp"
#include "spatial/aoutput.hpp"
#include "ode/aodesolver.hpp"
#include "utilities/aerrorhandling.hpp"
namespace vf { Rep rep; AsFound asFound; }
static bool gHist=false;
static MOpt mopt(Rng&r) { MOpt o; if(gHist) { o.nmin=3; o.nmax=6; return o; } o.nmin=mpiSize()>1?3:2; o.nmax=mpiSize()>1?6:5; if(getenv("VF_BIG")) o.nmin=o.nmax=5; (void)r; return o; }
#define VF_NO_MODES
#include "ctrl.hpp"
typedef std::vector<double> VD;
static VD getv(Vec v) { PetscInt n; VecGetLocalSize(v,&n); const PetscScalar*a; VecGetArrayRead(v,&a); VD q(a,a+n); VecRestoreArrayRead(v,&a); return q; }
// ---- one phase, from the parts
struct Phase { int thrown=0; TimingData td; std::string what; };
struct Parts { Mat M=NULL,A=NULL; KSP k=NULL; ~Parts() { if(k) KSPDestroy(&k); if(A) MatDestroy(&A); if(M) MatDestroy(&M); } };
static double gNoise=2e-9; static bool gLin=false;   // level of residuals dominated by rounding; a linear solve of this case did not reach its tolerance
static PetscErrorCode linWatch(KSP k,Vec,Vec,void*) { KSPConvergedReason q; KSPGetConvergedReason(k,&q); if(q<=0) gLin=true; return 0; }
static Phase phase(const Spatial<freal,4>*s,const UMesh<freal,2>&m,const FlowParserOptions&W,bool mf,bool starter,Vec u) {
	Phase P; SteadySolverConfig cf; cf.lognres=true; cf.logfile=scratch()+"/ref"; cf.write_final_lin_sys=false; cf.cflinit=starter?W.firstinitcfl:W.initcfl; cf.cflfin=starter?W.firstendcfl:W.endcfl; cf.rampstart=0; cf.rampend=0; cf.tol=starter?W.firsttolerance:W.tolerance; cf.maxiter=starter?W.firstmaxiter:W.maxiter; cf.linmaxiterstart=cf.linmaxiterend=1;
	Parts K; std::unique_ptr<NonlinearUpdate<4>> upd; std::unique_ptr<SteadySolver<4>> sol; IdealGasPhysics<freal> phy(W.gamma,W.Minf,W.Tinf,W.Reinf,W.Pr);
	if(W.pseudotimetype=="IMPLICIT") { setupSystemMatrix<4>(&m,&K.M); if(mf) create_matrixfree_jacobian<4>(s,&K.A); KSPCreate(PETSC_COMM_WORLD,&K.k); KSPSetOperators(K.k,mf?K.A:K.M,K.M); KSPSetFromOptions(K.k); KSPSetPostSolve(K.k,linWatch,NULL); if(W.nl_update_scheme=="FULL") upd.reset(new FullUpdate<4>()); else upd.reset(new FlowSimpleUpdate<4>(phy,W.min_nl_update)); sol.reset(new SteadyBackwardEulerSolver<4>(s,cf,K.k,upd.get())); }
	else sol.reset(new SteadyForwardEulerSolver<4>(s,u,cf));
	try { if(sol->solve(u)) P.thrown=9; } catch(const Tolerance_error&e) { P.thrown=1; P.what=e.what(); } catch(const Numerical_error&e) { P.thrown=2; P.what=e.what(); } P.td=sol->getTimingData(); if(P.thrown==2) P.td.converged=false; return P; }
static bool fin(const VD&v) { for(double x:v) if(!std::isfinite(x)||std::fabs(x)>1e30) return false; return true; }
// a final residual so close to the tolerance that rounding decides
static bool closeCall(const Phase&p,double tol) { for(auto&s:p.td.convhis) if(std::fabs(s.rmsres-tol)<=2e-5*tol) return true; return false; }
static bool chaotic(const Phase&p) { for(auto&s:p.td.convhis) if(!(s.rmsres<1e3f)||!(s.absrmsres<1e12f)||s.absrmsres<gNoise) return true; return false; }   // growing errors or a history of rounding noise: values are not compared
static std::vector<std::vector<std::string>> words(const std::string&f,bool*ok) { std::vector<std::vector<std::string>> v; std::ifstream i(f); *ok=(bool)i; std::string l; while(std::getline(i,l)) { if(l.empty()||l[0]=='#') continue; std::istringstream s(l); std::vector<std::string> w; std::string x; while(s>>x) w.push_back(x); v.push_back(w); } return v; }
static void checkHistory(const char*K,const std::string&log,const Phase&P,bool want,bool exact,double tolv,bool lin) { std::string k(K); bool ok; auto t=words(log+"-residual_history.log",&ok); bool ok2; auto q=words(log+"-prec-timing.log",&ok2);
	if(ok!=want) { rep.viol(k+":history-file","residual history %s, should %sbe",ok?"written":"missing",want?"":"not "); return; } if(ok2!=want) rep.viol(k+":timing-file","timing table %s",ok2?"written":"missing"); unlink((log+"-residual_history.log").c_str()); unlink((log+"-prec-timing.log").c_str()); if(!want) return;
	if((int)t.size()!=P.td.num_timesteps) { if(exact) { std::string q; for(auto&r:t) q+=" "+(r.size()>1?r[1]:""); q+=" |"; for(auto&s:P.td.convhis) q+=sf(" %.6g",std::log10(s.rmsres)); rep.viol(k+":history-rows","%zu rows for %d steps:%s",t.size(),P.td.num_timesteps,q.c_str()); } return; }
	for(size_t i=0;i<t.size();i++) { const SteadyStepMonitor&s=P.td.convhis[i]; if(t[i].size()!=7) { rep.viol(k+":history-form","row %zu has %zu entries",i+1,t[i].size()); return; } double v[7]; for(int j=0;j<7;j++) v[j]=strtod(t[i][j].c_str(),nullptr); double lr=std::log10(s.rmsres),la=std::log10(s.absrmsres);
		if((int)v[0]!=s.step) { rep.viol(k+":history-step","row %zu: step %g",i+1,v[0]); return; } auto cmp=[&](double a,double b) { return a==b||std::fabs(a-b)<=tolv*std::max(1.,std::fabs(b)); }; if(!chaotic(P)&&(!cmp(v[1],lr)||!cmp(v[2],la))) { rep.viol(k+":history-residual","row %zu: %.6g %.6g, should be %.6g %.6g",i+1,v[1],v[2],lr,la); return; } if(!chaotic(P)&&!(std::fabs(v[6]-s.cfl)<=std::max(6e-4,20*tolv)*s.cfl)) { rep.viol(k+":history-cfl","row %zu: CFL %g, should be %g",i+1,v[6],s.cfl); return; } if(exact&&lin&&(int)v[5]!=s.linits) { rep.viol(k+":history-linear-iterations","row %zu: %g, should be %d",i+1,v[5],s.linits); return; }
		if(i&&v[3]<strtod(t[i-1][3].c_str(),nullptr)) rep.viol(k+":history-time","row %zu: time decreases",i+1); }
	if(q.size()!=1||q[0].size()!=8||atoi(q[0][6].c_str())!=P.td.num_timesteps||q[0][7]!="1") rep.viol(k+":timing-row","%zu rows",q.size()); rep.count("residual histories compared"); rep.count("history rows",t.size()); }
static int countOf(const std::string&t,const std::string&w) { int n=0; for(size_t p=t.find(w);p!=std::string::npos;p=t.find(w,p+1)) n++; return n; }
static std::string slurp(const std::string&f) { std::ifstream i(f,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static bool exists(const std::string&f) { return access(f.c_str(),F_OK)==0; }
// contents of the files of a run, against the state it must have reached
static void checkFiles(const char*K,const FlowParserOptions&W,const Case&c,Lib&L,bool finite) { std::string k(K); const Mesh&m=*L.lm.m; int n=L.lm.cell.size();
	std::string vt=W.vtu_output_file; if(!exists(vt)) { rep.viol(k+":no-output","the solution file is missing"); return; }
	for(int t:W.lwalls) { std::string f=W.surfnameprefix+"-surf_w"+std::to_string(t)+".out"; if(!exists(f)) rep.viol(k+":no-wall-table","marker %d",t); } for(int t:W.lothers) { std::string f=W.surfnameprefix+"-surf_o"+std::to_string(t)+".out"; if(!exists(f)) rep.viol(k+":no-other-table","marker %d",t); } if(W.vol_output_reqd=="YES"&&!exists(W.volnameprefix+"-vol.out")) rep.viol(k+":no-volume-table","missing");
	if(finite) { Vtu v=parseVtu(vt); checkVtuMesh(K,v,m); int np=m.gnpoin(); std::vector<std::array<double,4>> up(np,std::array<double,4>{{0,0,0,0}}); VD as(np,0); double mx[4]={0,0,0,0}; for(int e=0;e<n;e++) for(int j=0;j<m.gnnode(e);j++) { int q=m.ginpoel(e,j); double a=c.geo->area[L.lm.cell[e]]; as[q]+=a; for(int i=0;i<4;i++) { up[q][i]+=a*c.u[L.lm.cell[e]][i]; mx[i]=std::max(mx[i],std::fabs(c.u[L.lm.cell[e]][i])); } }
		if(v.ok&&(int)v.pd["density"].size()==np&&(int)v.pd["velocity"].size()==3*np&&(int)v.pd["pressure"].size()==np) { for(int q=0;q<np;q++) { double U[4]; for(int i=0;i<4;i++) U[i]=up[q][i]/as[q]; double p=rP(c.G,U),ex[4]={U[0],U[1]/U[0],U[2]/U[0],p},got[4]={v.pd["density"][q],v.pd["velocity"][3*q],v.pd["velocity"][3*q+1],v.pd["pressure"][q]},sc[4]={mx[0],std::hypot(mx[1],mx[2])/U[0],std::hypot(mx[1],mx[2])/U[0],mx[3]}; for(int i=0;i<4;i++) if(!(std::fabs(got[i]-ex[i])<=(1e-5+outTol)*(std::fabs(ex[i])+sc[i]))) { rep.viol(k+":solution-file","point %d quantity %d: %.9g, should be %.9g",q,i,got[i],ex[i]); q=np; break; } } rep.count("solution files compared"); } else if(v.ok) rep.viol(k+":solution-arrays","arrays missing");
		if(W.vol_output_reqd=="YES") checkVolume(W.volnameprefix+"-vol.out",c,L.lm); std::vector<GradBlock_t<freal,NDIM,4>> gr(n+m.gnConnFace()); L.s->getGradients(L.u,gr.data()); U4 gx(n),gy(n); for(int e=0;e<n;e++) for(int i=0;i<4;i++) { gx[L.lm.cell[e]][i]=gr[e](0,i); gy[L.lm.cell[e]][i]=gr[e](1,i); } std::set<int> dw(W.lwalls.begin(),W.lwalls.end()),dd(W.lothers.begin(),W.lothers.end()); for(int t:dw) checkWall(W.surfnameprefix+"-surf_w"+std::to_string(t)+".out",c,gx,gy,t); for(int t:dd) checkOther(W.surfnameprefix+"-surf_o"+std::to_string(t)+".out",c,t); }
	unlink(vt.c_str()); unlink((W.volnameprefix+"-vol.out").c_str()); for(int t:W.lwalls) unlink((W.surfnameprefix+"-surf_w"+std::to_string(t)+".out").c_str()); for(int t:W.lothers) unlink((W.surfnameprefix+"-surf_o"+std::to_string(t)+".out").c_str()); }
struct Setup { Case c; Ctl t; std::string mf,cf; std::vector<std::string> opt; bool mfj=false,fls=false; };
// a valid problem with a control file; hist: linear systems solved to rounding so that runs on different numbers of processes compare
static void rndSetup(Rng&r,Setup&S,bool hist) { Case&c=S.c; MOpt mo=mopt(r); mo.pbig=0; while(true) { c.gm=genMesh(r,mo); c.setGeo(); static const std::vector<int> all={B_SLIP,B_FAR,B_INOUT,B_EXTRAP,B_ADIA,B_ISO,B_SUBIN}; rndConf(r,c,all,40,0.4); c.lim=0; if(!c.o2) c.grad=GR_NONE; if(c.grad==GR_NONE) c.o2=false; if(c.rec==RC_WENO&&r.p(0.7)) c.rec=RC_NONE; if(!c.visc) c.G.Tinf=298; c.jflux=c.flux; c.conf();
	S.mf=meshFile(c.gm); S.t=rndCtl(r,&c,S.mf); bool si=false,io=false; for(auto&b:c.bc) { if(b.second.kind==B_SUBIN) si=true; if(b.second.kind==B_INOUT) io=true; } if(!(io&&c.aoa==0)) if((!si&&S.t.W.invfluxjac!="VANLEER"&&S.t.W.invfluxjac!="AUSMPLUS"&&!(hist&&S.t.W.invfluxjac=="HLLC"))||S.t.W.pseudotimetype!="IMPLICIT") break; MPI_Barrier(MPI_COMM_WORLD); if(mpiRank()==0) unlink(S.mf.c_str()); MPI_Barrier(MPI_COMM_WORLD); c.bc.clear(); }   // inflow/outflow along the flow switches on rounding noise; the subsonic inflow and the Van Leer and AUSM+ fluxes have no Jacobian
	auto&W=S.t.W; CN&R=S.t.root; std::string d=scratch(); auto set=[&](std::vector<std::string> p,const std::string&v) { CN*x=at(R,p); if(x) x->v=v; };
	W.vtu_output_file=d+"/o.vtu"; set({"io","solution_output_file"},W.vtu_output_file); W.logfile=d+"/run"; set({"io","log_file_prefix"},W.logfile); if(!W.surfnameprefix.empty()) { W.surfnameprefix=d+"/s"; set({"bc","surface_output_file_prefix"},W.surfnameprefix); } if(W.vol_output_reqd=="YES") { W.volnameprefix=d+"/v"; set({"bc","volume_output_file_prefix"},W.volnameprefix); }
	for(auto*l:{&W.lwalls,&W.lothers}) { std::vector<int> u; for(int x:*l) if(std::find(u.begin(),u.end(),x)==u.end()) u.push_back(x); if(u.size()!=l->size()) { *l=u; std::string s; for(int x:u) s+=(s.empty()?"":" ")+std::to_string(x); set({"bc",l==&W.lwalls?"listof_output_wall_boundaries":"listof_output_other_boundaries"},"\""+s+"\""); (l==&W.lwalls?W.num_out_walls:W.num_out_others)=u.size(); } }
	bool imp=W.pseudotimetype=="IMPLICIT"; auto ph=[&](const char*n,freal&a,freal&b,freal&tol,int&it) { a=imp?r.lu(0.3,300):r.p(0.05)?r.lu(5,500):r.lu(0.05,0.7); b=r.p(0.4)?a:a*(imp?r.lu(1,100):r.lu(1,1.5)); tol=r.p(0.2)?r.lu(1e-12,1e-3):r.p(0.5)?r.u(0.2,0.97):r.lu(1e-3,0.95); it=r.p(0.04)?0:r.i(1,imp?10:25); if(r.p(0.3)) it+=20; if(!hist&&r.p(0.06)) { it=r.i(60,imp?130:400); tol=r.lu(1e-13,1e-6); if(imp) { a=r.lu(20,300); b=a*r.lu(1,1000); set({"pseudotime",n,"cfl_min"},sf("%.17g",a)); } } set({"pseudotime",n,"cfl_min"},sf("%.17g",a)); set({"pseudotime",n,"cfl_max"},sf("%.17g",b)); set({"pseudotime",n,"tolerance"},sf("%.17g",tol)); set({"pseudotime",n,"max_timesteps"},std::to_string(it)); };
	ph("main",W.initcfl,W.endcfl,W.tolerance,W.maxiter); if(W.usestarter) ph("initialization",W.firstinitcfl,W.firstendcfl,W.firsttolerance,W.firstmaxiter);
	c.nc.conv_numflux_jac=W.invfluxjac; c.nc.limiter_param=0; c.aoa=W.alpha; c.pc.aoa=W.alpha; for(auto&b:c.pc.bcconf) (void)b; c.conf(); c.nc.conv_numflux_jac=W.invfluxjac;
	S.mfj=imp&&!hist&&r.p(0.2); S.fls=imp&&!hist&&r.p(0.15); S.opt={"-ksp_type","gmres","-pc_type","pbjacobi"}; if(hist||S.mfj||r.p(0.6)) { for(auto s:{"-ksp_rtol","1e-12","-ksp_max_it","400","-ksp_gmres_restart","200"}) S.opt.push_back(s); } else { for(auto s:{"-ksp_rtol","1e-2","-ksp_max_it","20"}) S.opt.push_back(s); if(r.p(0.4)&&mpiSize()==1) S.opt[3]="ilu"; } if(S.mfj) S.opt.push_back("-matrix_free_jacobian");
	c.desc=c.describe()+sf(" %s cfl %.3g..%.3g tol %.3g max %d%s%s%s",W.pseudotimetype.c_str(),W.initcfl,W.endcfl,W.tolerance,W.maxiter,W.usestarter?sf(" starter cfl %.3g..%.3g tol %.3g max %d",W.firstinitcfl,W.firstendcfl,W.firsttolerance,W.firstmaxiter).c_str():"",S.mfj?" matrix-free":"",S.opt[3]=="ilu"?" ilu":""); }
static void setOpts(const std::vector<std::string>&o,bool on) { for(size_t k=0;k<o.size();k++) { bool val=k+1<o.size()&&o[k+1][0]!='-'; if(on) PetscOptionsSetValue(NULL,o[k].c_str(),val?o[k+1].c_str():NULL); else PetscOptionsClearValue(NULL,o[k].c_str()); if(val) k++; } }
static void mRun(Rng&r,const std::string&mode) { bool hist=mode=="hist"; Setup S; rndSetup(r,S,hist); Case&c=S.c; auto&W=S.t.W; rep.at(rep.cur+" "+c.desc);
	std::string f=scratch()+"/c.ctrl"; { Rng rw(mix(hashs(c.desc),7)); if(mpiRank()==0) writeCN(rw,S.t.root,f); } MPI_Barrier(MPI_COMM_WORLD); bool imp=W.pseudotimetype=="IMPLICIT";
	outTol=imp?1e-4:1e-7; setOpts(S.opt,true); gLin=false; { double A=0; for(double x:c.geo->area) A+=x; gNoise=1e-10*(1+c.uinf[3])*A; } Lib L; Phase P1,P2; bool started=W.usestarter!=0; std::string out; bool finite;
	{ Quiet q; L.mesh(c); if(!L.ok) { setOpts(S.opt,false); return; } L.disc(c); U4 ui(c.gm.el.size()); for(auto&x:ui) for(int i=0;i<4;i++) x[i]=c.uinf[i]; L.set(ui);
		{ IdealGasPhysics<freal> phy(W.gamma,W.Minf,W.Tinf,W.Reinf,W.Pr); auto fs=phy.compute_freestream_state(W.alpha); PetscScalar*a; VecGetArray(L.u,&a); for(size_t e=0;e<L.lm.cell.size();e++) for(int i=0;i<4;i++) { if(!(std::fabs(fs[i]-c.uinf[i])<=1e-13*(1+std::fabs(c.uinf[i])))) rep.viol("run:free-stream","component %d: %.15g for %.15g",i,fs[i],c.uinf[i]); a[4*e+i]=fs[i]; } VecRestoreArray(L.u,&a); VecGhostUpdateBegin(L.u,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(L.u,INSERT_VALUES,SCATTER_FORWARD); }
		if(started) { FlowNumericsConfig n1=c.nc; n1.gradientscheme="NONE"; n1.reconstruction="NONE"; n1.limiter_param=1; n1.order2=false; std::unique_ptr<const FlowFV_base<freal>> s1(create_const_flowSpatialDiscretization<freal>(L.lm.m.get(),c.pc,n1)); P1=phase(s1.get(),*L.lm.m,W,S.mfj,true,L.u); }
		if(P1.thrown<2) P2=phase(L.s,*L.lm.m,W,S.mfj,false,L.u); }
	if(P1.thrown==9||P2.thrown==9) { rep.count("error codes from PETSc (skipped)"); setOpts(S.opt,false); return; }
	VD uf=getv(L.u); finite=fin(uf)&&P1.thrown<2&&P2.thrown<2; { int a=finite,b; MPI_Allreduce(&a,&b,1,MPI_INT,MPI_MIN,MPI_COMM_WORLD); finite=b; } bool adm=finite; if(finite) for(size_t e=0;e<L.lm.cell.size();e++) if(!(uf[4*e]>0)||!(rP(c.G,&uf[4*e])>0)) adm=false; { int a=adm,b; MPI_Allreduce(&a,&b,1,MPI_INT,MPI_MIN,MPI_COMM_WORLD); adm=b; }
	bool fuzzy=(started&&P1.thrown<2&&closeCall(P1,W.firsttolerance))||closeCall(P2,W.tolerance)||chaotic(P1)||chaotic(P2)||(hist&&gLin); bool soft=fuzzy||S.mfj; double stol=S.mfj?(!c.o2&&P1.td.num_timesteps+P2.td.num_timesteps<=5?1e-3:1e300):W.pseudotimetype=="IMPLICIT"?1e-5:1e-8,htol=S.mfj?1e-3:2e-5;   // difference quotients carry rounding noise
	bool conv=P1.thrown<2&&P2.thrown==0&&P2.td.converged;
	// runs that amplify rounding errors: the same phases from a start changed by one part in 1e13
	if(!hist&&finite&&!fuzzy) { Phase Q1,Q2; Vec w; VecDuplicate(L.u,&w); { Quiet q; PetscScalar*a; VecGetArray(w,&a); for(size_t e=0;e<L.lm.cell.size();e++) { Rng rw(mix(L.lm.cell[e],99)); for(int i=0;i<4;i++) a[4*e+i]=c.uinf[i]+1e-13*rw.u(-1,1)*(i==3||i==0?c.uinf[i]:1); } VecRestoreArray(w,&a); VecGhostUpdateBegin(w,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(w,INSERT_VALUES,SCATTER_FORWARD);
			if(started) { FlowNumericsConfig n1=c.nc; n1.gradientscheme="NONE"; n1.reconstruction="NONE"; n1.limiter_param=1; n1.order2=false; std::unique_ptr<const FlowFV_base<freal>> s1(create_const_flowSpatialDiscretization<freal>(L.lm.m.get(),c.pc,n1)); Q1=phase(s1.get(),*L.lm.m,W,S.mfj,true,w); } if(Q1.thrown<2) Q2=phase(L.s,*L.lm.m,W,S.mfj,false,w); }
		bool sens=Q1.thrown!=P1.thrown||Q2.thrown!=P2.thrown||Q2.td.num_timesteps!=P2.td.num_timesteps; if(!sens) { VD z=getv(w); for(size_t k=0;k<z.size();k++) if(!(std::fabs(z[k]-uf[k])<=0.03*stol*(1+std::fabs(uf[k])+std::fabs(uf[k-k%4+3])))) sens=true; for(size_t i=0;i<P2.td.convhis.size()&&i<Q2.td.convhis.size();i++) if(!(std::fabs(std::log10(P2.td.convhis[i].rmsres)-std::log10(Q2.td.convhis[i].rmsres))<=0.1*htol)) sens=true; }
		VecDestroy(&w); { int a=sens,b; MPI_Allreduce(&a,&b,1,MPI_INT,MPI_MAX,MPI_COMM_WORLD); sens=b; } if(sens) { rep.count("runs that amplify rounding errors (values not compared)"); fuzzy=soft=true; } }
	rep.count(P1.thrown>=2?"starter broke down":P2.thrown==2?"main phase broke down":P2.thrown==1?"main phase did not converge":"converged"); if(started) rep.count(P1.thrown==1?"starter did not converge":"starter converged");
	rep.eval(mix(hashs(c.desc),mpiSize())); rep.sample(c.desc);
	// functionals of the final state, from its definition
	double ent=0,CL=0,CDp=0,CDf=0; SurfRef SR; if(adm) { c.u.resize(c.gm.el.size()); std::vector<double> all(4*c.gm.el.size(),0),g(all.size()); for(size_t e=0;e<L.lm.cell.size();e++) for(int i=0;i<4;i++) all[4*L.lm.cell[e]+i]=uf[4*e+i]; MPI_Allreduce(all.data(),g.data(),all.size(),MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); for(size_t e=0;e<c.u.size();e++) for(int i=0;i<4;i++) c.u[e][i]=g[4*e+i];
		double si=rP(c.G,c.uinf)/std::pow(c.uinf[0],c.G.g); for(size_t e=0;e<c.u.size();e++) { double d=(rP(c.G,c.u[e].data())/std::pow(c.u[e][0],c.G.g)-si)/si; ent+=d*d*c.geo->area[e]; } ent=std::sqrt(ent);
		if(W.lwalls.size()) { int n=L.lm.cell.size(); std::vector<GradBlock_t<freal,NDIM,4>> gr(n+L.lm.m->gnConnFace()+1); { Quiet q; L.s->getGradients(L.u,gr.data()); } std::vector<double> ga(8*c.u.size(),0),gg(ga.size()); for(int e=0;e<n;e++) for(int i=0;i<4;i++) { ga[8*L.lm.cell[e]+i]=gr[e](0,i); ga[8*L.lm.cell[e]+4+i]=gr[e](1,i); } MPI_Allreduce(ga.data(),gg.data(),ga.size(),MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD); U4 gx(c.u.size()),gy(c.u.size()); for(size_t e=0;e<c.u.size();e++) for(int i=0;i<4;i++) { gx[e][i]=gg[8*e+i]; gy[e][i]=gg[8*e+4+i]; } SR=surfRef(c,gx,gy,W.lwalls[0]); CL=SR.CL; CDp=SR.CDp; CDf=SR.CDf; } }
	if(hist) { // one line per case, compared between numbers of processes by check.py
		if(mpiRank()==0) { std::string s=sf("@H %s fuzzy=%d t1=%d t2=%d n1=%d n2=%d",rep.cur.substr(rep.cur.find('/')+1,rep.cur.find(' ')-rep.cur.find('/')-1).c_str(),(int)fuzzy,P1.thrown,P2.thrown,started?P1.td.num_timesteps:0,P1.thrown<2?P2.td.num_timesteps:0); s+=" r"; for(auto*p:{&P1,&P2}) for(auto&x:p->td.convhis) s+=sf(" %.7g",x.absrmsres); s+=sf(" f %.10g %.10g %.10g %.10g sc %.3g %.3g %.3g",ent,CL,CDp,CDf,SR.scale,SR.fscale,adm?1.:0.); fprintf(rep.out,"%s\n",s.c_str()); } setOpts(S.opt,false); MPI_Barrier(MPI_COMM_WORLD); if(mpiRank()==0) { unlink(f.c_str()); unlink(S.mf.c_str()); } return; }
	// ---- the case in this process
	auto hw=[&] { return W.lognres&&conv; };
	{ POpt o; std::vector<std::string> a={"fvens",f}; if(S.fls) { a.push_back("--write_final_linear_system"); a.push_back("true"); } FlowSolutionFunctionals F; int thrown=0; std::string what; Vec u=NULL; bool two=r.p(0.25); std::string txt;
		{ Quiet q; o.parse(a,0xAA); UMesh<freal,NDIM> m=constructMeshFlow(*o.o,""); initializeSystemVector(*o.o,m,&u); SteadyFlowCase sc(*o.o); try { F=sc.run_output(true,true,m,u); } catch(const std::exception&e) { thrown=1; what=e.what(); } txt=q.s.str();
			if(P1.thrown>=2) { if(!thrown&&!fuzzy) rep.viol("run:starter-breakdown-hidden","the starter phase breaks down and the run returns normally"); }
			else if(thrown) rep.viol("run:exception","%s",what.c_str());
			else { if(mpiRank()==0&&!fuzzy) { int said=countOf(txt,"did not converge")-(started&&P1.thrown==1); if(conv?said!=0:said<=0) rep.viol(conv?"run:failure-reported":"run:failure-not-reported","phases end with %d %d, the run says: %s",P1.thrown,P2.thrown,said>0?"did not converge":"nothing"); }
				VD v=getv(u); if(!fuzzy&&adm) { double d=0; int at=-1; for(size_t k=0;k<v.size();k++) { double x=std::fabs(v[k]-uf[k])/(1+std::fabs(uf[k])+std::fabs(uf[k-k%4+3])); if(!(x<=d)) { d=x; at=k; } } rep.maxi("state difference",d); if(!(d<=stol)) rep.viol("run:state","entry %d of the final state: %.12g, should be %.12g",at,v[at],uf[at]);
					else { double nn=std::sqrt((double)c.gm.el.size()); if(mpiSize()==1&&!(std::fabs(F.meshSizeParameter-1/nn)<=1e-12)) rep.viol("run:mesh-size","%.12g, should be %.12g",F.meshSizeParameter,1/nn); double ke=c.uinf[3]/rP(c.G,c.uinf),as=0; for(double x:c.geo->area) as+=x; if(!soft&&!(std::fabs(F.entropy-ent)<=1e-6*ent+1e-6*ke*std::sqrt(as))) rep.viol("run:entropy","%.12g, should be %.12g",F.entropy,ent);
						if(!soft&&!(std::fabs(F.CL-CL)<=1e-6*(SR.scale+std::fabs(CL))&&std::fabs(F.CDp-CDp)<=1e-6*(SR.scale+std::fabs(CDp))&&std::fabs(F.CDsf-CDf)<=1e-6*(std::fabs(CDf)+SR.fscale*1e3))) rep.viol("run:functionals","CL CDp CDf = %.9g %.9g %.9g, should be %.9g %.9g %.9g",F.CL,F.CDp,F.CDsf,CL,CDp,CDf); rep.count("functionals compared"); } }
				if(mpiSize()==1) { if(!fuzzy) checkHistory("run",W.logfile,P2,hw(),!S.mfj,htol,S.opt[5]!="1e-12"); checkFiles("run",W,c,L,adm&&!soft); }
				else { if(!fuzzy&&mpiRank()==0) checkHistory("run",W.logfile,P2,hw(),!S.mfj,htol,S.opt[5]!="1e-12"); if(exists(W.vtu_output_file)) rep.count("files written by a multi-process run"); }
				if(S.fls&&mpiSize()==1&&!fuzzy) { bool a1=exists(W.logfile+"_lhs.pmat"),a2=exists(W.logfile+"_b.pmat"),a3=exists(W.logfile+"_x.pmat"); if(P2.thrown<2&&W.maxiter>0&&(!a1||!a2||!a3)) rep.viol("run:final-system-missing","requested, files present: %d %d %d",a1,a2,a3); else if(a1&&a2&&a3&&W.maxiter>0&&P2.td.num_timesteps>0) { PetscViewer pv; Mat A; Vec b,x,y; PetscViewerBinaryOpen(PETSC_COMM_WORLD,(W.logfile+"_lhs.pmat").c_str(),FILE_MODE_READ,&pv); MatCreate(PETSC_COMM_WORLD,&A); MatSetType(A,MATBAIJ); int e1=MatLoad(A,pv); PetscViewerDestroy(&pv); VecCreate(PETSC_COMM_WORLD,&b); VecCreate(PETSC_COMM_WORLD,&x); PetscViewerBinaryOpen(PETSC_COMM_WORLD,(W.logfile+"_b.pmat").c_str(),FILE_MODE_READ,&pv); e1|=VecLoad(b,pv); PetscViewerDestroy(&pv); PetscViewerBinaryOpen(PETSC_COMM_WORLD,(W.logfile+"_x.pmat").c_str(),FILE_MODE_READ,&pv); e1|=VecLoad(x,pv); PetscViewerDestroy(&pv); PetscInt nr,nc; MatGetSize(A,&nr,&nc); if(e1||nr!=(int)uf.size()||nc!=nr) rep.viol("run:final-system-form","%d rows for %zu unknowns",(int)nr,uf.size()); else if(!S.mfj&&adm&&S.opt[5]=="1e-12") { VecDuplicate(b,&y); MatMult(A,x,y); VecAXPY(y,-1,b); double n1,n2; VecNorm(y,NORM_2,&n1); VecNorm(b,NORM_2,&n2); rep.count("final linear systems loaded"); if(std::isfinite(n1)) rep.maxi("final system residual",n2>0?n1/n2:0); if(getenv("VF_DBG")) { fprintf(stderr,"n1 %g n2 %g steps %d\n",n1,n2,P2.td.num_timesteps); MatView(A,PETSC_VIEWER_STDERR_WORLD); for(auto&st:P2.td.convhis) fprintf(stderr,"res %g %g\n",st.rmsres,st.absrmsres); } PetscReal an; MatNorm(A,NORM_FROBENIUS,&an); if(!std::isfinite(an)) rep.count("final systems without finite entries (skipped)"); else if(!(n1<=1e-6*n2+1e-12)) rep.viol("run:final-system","|A x - b| = %g |b|",n1/n2); VecDestroy(&y); } MatDestroy(&A); VecDestroy(&b); VecDestroy(&x); } }
				for(auto e:{"_lhs.pmat","_b.pmat","_x.pmat"}) { if(mpiSize()==1&&!S.fls&&exists(W.logfile+e)) rep.viol("run:final-system-unrequested","%s",e); if(mpiRank()==0) { unlink((W.logfile+e).c_str()); unlink((W.logfile+e+".info").c_str()); } }
				// the run without output: the same state, failure raised
				if(two&&!fuzzy) { Vec w=NULL; initializeSystemVector(*o.o,m,&w); int th=0; try { sc.run(m,w); } catch(const Tolerance_error&e) { th=1; } catch(const Numerical_error&e) { th=2; } catch(const std::exception&e) { th=3; } if(th!=(conv?0:1)) rep.viol("run:no-output-outcome","outcome %d, main phase converges: %d",th,(int)conv); VD z=getv(w); if(adm) for(size_t k=0;k<z.size();k++) if(!(std::fabs(z[k]-uf[k])<=stol*(1+std::fabs(uf[k])+std::fabs(uf[k-k%4+3])))) { rep.viol("run:no-output-state","entry %zu: %.12g, should be %.12g",k,z[k],uf[k]); break; } VecDestroy(&w); rep.count("runs without output"); for(auto e:{"_lhs.pmat","_b.pmat","_x.pmat"}) if(mpiRank()==0) { unlink((W.logfile+e).c_str()); unlink((W.logfile+e+".info").c_str()); } } } }
		if(u) VecDestroy(&u); MPI_Barrier(MPI_COMM_WORLD); }
	// ---- the program
	if(mpiSize()==1&&!binDir().empty()&&r.p(envl("VF_PROG",20)/100.)) { int np=r.p(0.25)?2:1; std::vector<std::string> a; if(np>1) a={"/usr/bin/mpirun","-n",std::to_string(np)}; a.push_back(binDir()+"/fvens_steady"); a.push_back(f); for(auto&s:S.opt) if(!(np>1&&s=="ilu")) a.push_back(s); else a.push_back("pbjacobi"); bool lp=r.p(0.2); std::string lg=W.logfile; if(lp) { lg=scratch()+"/alt"; a.push_back("-fvens_log_file_prefix"); a.push_back(lg); } std::string first,second;
		for(int rn=0;rn<(np==1&&r.p(0.3)?2:1);rn++) { std::string txt; int st=runProg(a,120,&txt); rep.count(np>1?"program runs on 2 processes":"program runs"); std::string tail=txt.size()>600?txt.substr(txt.size()-600):txt; for(char&ch:tail) if(ch=='\n') ch='/'; bool loose=fuzzy||(np>1&&imp&&S.opt[5]!="1e-12"); const char*K=np>1?"program2":"program";
			if(st==2000) { rep.viol(std::string(K)+":hang","no end after 120 s"); break; } if(st>=1000) { rep.viol(std::string(K)+":signal","signal %d: %s",st-1000,tail.c_str()); break; }
			if(P1.thrown>=2) { if(!loose&&st==0) rep.viol(std::string(K)+":starter-breakdown-hidden","exit status 0"); } else { if(st!=0&&!loose) { rep.viol(std::string(K)+":status","exit status %d: %s",st,tail.c_str()); break; } int said=countOf(txt,"did not converge")-np*(started&&P1.thrown==1); if(!loose&&(conv?said>0:said<=0)) { rep.viol(std::string(K)+":outcome","phases end with %d %d, the program says: %s",P1.thrown,P2.thrown,said>0?"did not converge":"nothing"); break; }
				if(!loose&&txt.find("--- End ---")==std::string::npos) rep.viol(std::string(K)+":no-end","%s",tail.c_str()); if(!loose) checkHistory(K,lg,P2,hw(),np==1&&!S.mfj,np==1?htol:std::max(htol,1e-4),S.opt[5]!="1e-12"); if(np==1&&st==0) { std::string all=slurp(W.vtu_output_file); checkFiles(K,W,c,L,adm&&!loose&&!soft); if(rn==0) first=all; else if(first!=all&&!soft&&envl("OMP_NUM_THREADS",1)==1) rep.viol("program:repeat","the solution file of the second run differs"); } }
			for(auto e:{"-residual_history.log","-prec-timing.log"}) unlink((lg+e).c_str()); if(rn) rep.count("repeated program runs"); } }
	setOpts(S.opt,false); if(mpiRank()==0) { for(auto e:{"-residual_history.log","-prec-timing.log"}) unlink((W.logfile+e).c_str()); unlink(f.c_str()); unlink(S.mf.c_str()); } MPI_Barrier(MPI_COMM_WORLD); }
int main(int argc,char**argv) { wideGas=false; std::string m=argv[1]; gHist=m=="hist"; Petsc P(argc,argv); mkdir(scratch().c_str(),0777); runCases([&](Rng&r,long) { mRun(r,m); }); }
