// Pointwise monitors: gas relations (gas), numerical fluxes (flux), their Jacobians (fluxjac), boundary
// ghost states (bc), their Jacobians (bcjac), viscous flux and Jacobian (visc).
#include "ref.hpp"
#include "physics/aphysics_defs.hpp"
#include "physics/viscousphysics.hpp"
#include "spatial/anumericalflux.hpp"
#include "spatial/abc.hpp"
#include <memory>
using namespace fvens;
namespace vf { Rep rep; AsFound asFound; }
using namespace vf;
typedef Dual<8> D8; typedef Dual<4> D4;
typedef IdealGasPhysics<double> Phys;
static std::string su(const double*u) { return sf("(%.17g %.17g %.17g %.17g)",u[0],u[1],u[2],u[3]); }
static void seed8(const double*ul,const double*ur,D8*a,D8*b) { for(int i=0;i<4;i++) { a[i]=D8::var(ul[i],i); b[i]=D8::var(ur[i],4+i); } }
static void scales(const Gas&G,const double*u,double*s,double&vel) { double c=rC(G,u),q=std::hypot(u[1],u[2])/u[0]; vel=c+q; s[0]=u[0]; s[1]=s[2]=u[0]*vel; s[3]=u[0]*vel*vel; }
static bool chk(const char*key,double got,double ref,double tol,double sc,const std::string&ctx) { double e=std::fabs(got-ref)/sc; rep.maxi(std::string("err ")+key,e); if(!(e<=tol)) { rep.viol(key,"got %.15g expected %.15g (scale %.3g) %s",got,ref,sc,ctx.c_str()); return false; } return true; }

// correct value, else the value of a recorded defect (reported under its own key), else a violation
static void chkK(const char*key,double got,double ref,double known,double tol,double sc,const std::string&ctx) {
	if(std::fabs(got-ref)<=tol*sc) { rep.maxi(std::string("err ")+key,std::fabs(got-ref)/sc); return; }
	if(std::fabs(got-known)<=tol*sc) { rep.viol(std::string(key)+":as-found","got %.15g expected %.15g (scale %.3g) %s",got,ref,sc,ctx.c_str()); return; }
	chk(key,got,ref,tol,sc,ctx);
}
static void gas(Rng&r,int) {
	Gas G=rndGas(r); Phys p(G.g,G.M,G.Tinf,G.Re,G.Pr); double u[4],n[2]; rndState(r,G,u); rndN(r,n); if(r.p(0.3)) { n[0]*=3; n[1]*=3; }
	std::string ctx=sf("g=%.17g M=%.17g Tinf=%.17g Re=%.17g Pr=%.17g n=(%.17g %.17g) u=",G.g,G.M,G.Tinf,G.Re,G.Pr,n[0],n[1])+su(u);
	rep.eval(hashd(u,4)); double s[4],vel; scales(G,u,s,vel);
	double P=rP(G,u),c=rC(G,u),T=rT(G,u),vx=u[1]/u[0],vy=u[2]/u[0]; double ps=s[3];
	const double e=1e-11; D4 d[4]; for(int i=0;i<4;i++) d[i]=D4::var(u[i],i);
	chk("gas:pressure",p.getPressureFromConserved(u),P,e,ps,ctx); chk("gas:pressure-energy",p.getPressure(P/(G.g-1)),P,e,P,ctx);
	double Ts=T*ps/P, cs=c*ps/P, r1=ps/P;
	chk("gas:temperature",p.getTemperatureFromConserved(u),T,e,Ts,ctx); chk("gas:temperature-rhop",p.getTemperature(u[0],P),T,e,T,ctx);
	chk("gas:sound",p.getSoundSpeedFromConserved(u),c,e,cs,ctx); chk("gas:sound-rhop",p.getSoundSpeed(u[0],P),c,e,c,ctx);
	chk("gas:entropy",p.getEntropyFromConserved(u),P/std::pow(u[0],G.g),e,ps/std::pow(u[0],G.g),ctx);
	chk("gas:energy-p",p.getEnergyFromPressure(P,u[0],vx*vx+vy*vy),u[3],e,ps,ctx); chk("gas:energy-T",p.getEnergyFromTemperature(T,u[0],vx*vx+vy*vy),u[3],e,ps,ctx);
	double up[4]={u[0],vx,vy,P},up2[4]={u[0],vx,vy,T},o[4],o2[4];
	chk("gas:energy-prim",p.getEnergyFromPrimitive(up),u[3],e,ps,ctx); chk("gas:energy-prim2",p.getEnergyFromPrimitive2(up2),u[3],e,ps,ctx);
	chk("gas:density",p.getDensityFromPressureTemperature(P,T),u[0],e,u[0],ctx); chk("gas:T-prim",p.getTemperatureFromPrimitive(up),T,e,T,ctx);
	double sp[4]={u[0],vel,vel,ps}, sp2[4]={u[0],vel,vel,Ts};
	p.getPrimitiveFromConserved(u,o); for(int i=0;i<4;i++) chk("gas:cons2prim",o[i],up[i],e,sp[i],ctx);
	p.getConservedFromPrimitive(o,o2); for(int i=0;i<4;i++) chk("gas:prim2cons-roundtrip",o2[i],u[i],e,s[i],ctx);
	for(int i=0;i<4;i++) o[i]=u[i]; p.getPrimitiveFromConserved(o,o); for(int i=0;i<4;i++) chk("gas:cons2prim-inplace",o[i],up[i],e,sp[i],ctx);
	p.getConservedFromPrimitive(o,o); for(int i=0;i<4;i++) chk("gas:prim2cons-inplace",o[i],u[i],e,s[i],ctx);
	p.getPrimitive2FromConserved(u,o); for(int i=0;i<4;i++) chk("gas:cons2prim2",o[i],up2[i],e,sp2[i],ctx);
	for(int i=0;i<4;i++) o[i]=u[i]; p.getPrimitive2FromConserved(o,o); for(int i=0;i<4;i++) chk("gas:cons2prim2-inplace",o[i],up2[i],e,sp2[i],ctx);
	// flux and vars
	double f[4],fr[4]; rF(G,u,n,fr); p.getDirectionalFluxFromConserved(u,n,f); double nm=std::hypot(n[0],n[1]); for(int i=0;i<4;i++) chk("gas:flux",f[i],fr[i],e,s[i]*vel*nm,ctx);
	double v[2],vn,pp,H; p.getVarsFromConserved(u,n,v,vn,pp,H); chk("gas:vars",v[0],vx,e,vel,ctx); chk("gas:vars",v[1],vy,e,vel,ctx); chk("gas:vars-vn",vn,vx*n[0]+vy*n[1],e,vel*nm,ctx); chk("gas:vars-p",pp,P,e,ps,ctx); chk("gas:vars-H",H,(u[3]+P)/u[0],e,vel*vel,ctx);
	p.getDirectionalFlux(u,n,vn,P,f); for(int i=0;i<4;i++) chk("gas:flux-parts",f[i],fr[i],e,s[i]*vel*nm,ctx);
	// Jacobians
	const double ej=1e-9; double J[16]; D4 fd[4]; rF(G,d,n,fd); p.getJacobianDirectionalFluxWrtConserved(u,n,J);
	for(int i=0;i<4;i++) for(int j=0;j<4;j++) chk("gas:dflux",J[i*4+j],fd[i].d[j],ej,s[i]*vel*nm/s[j],ctx);
	auto der=[&](const char*key,const double*got,const D4&x,double sc,const double*pre=nullptr) { for(int j=0;j<4;j++) chk(key,got[j]-(pre?pre[j]:0),x.d[j],ej,(sc+(pre?std::fabs(pre[j])*s[j]:0))/s[j],ctx); };
	double a[4],z[4]={0,0,0,0}; auto Z=[&]() { for(int i=0;i<4;i++) a[i]=0; };
	Z(); p.getJacobianVmag2WrtConserved(u,a); der("gas:dvmag2",a,(d[1]*d[1]+d[2]*d[2])/(d[0]*d[0]),vel*vel);
	Z(); p.getJacobianPressureWrtConserved(u,a); der("gas:dp",a,rP(G,d),ps); Z(); p.getJacobianPressureWrtConserved(u,u[1]*u[1]+u[2]*u[2],a); der("gas:dp-m2",a,rP(G,d),ps);
	Z(); p.getJacobianTemperatureWrtConserved(u,a); der("gas:dT",a,rT(G,d),Ts*r1); Z(); p.getJacobianSoundSpeedWrtConserved(u,a); der("gas:dc",a,rC(G,d),cs*r1);
	Z(); p.getJacobianMachNormalWrtConserved(u,n,a); der("gas:dMn",a,(d[1]*n[0]+d[2]*n[1])/d[0]/rC(G,d),nm*(1+vel/c)*r1*r1);
	{ double dp[4]; D4 pd=rP(G,d); for(int j=0;j<4;j++) dp[j]=pd.d[j]; Z(); p.getJacobianTemperature(u[0],P,dp,a); der("gas:dT-from-dp",a,rT(G,d),Ts*r1); Z(); p.getJacobianSoundSpeed(u[0],P,dp,c,a); der("gas:dc-from-dp",a,rC(G,d),cs*r1);
	  double dT[4]; D4 td=rT(G,d); for(int j=0;j<4;j++) dT[j]=td.d[j]; D4 v2=(d[1]*d[1]+d[2]*d[2])/(d[0]*d[0]); double dv2[4]; for(int j=0;j<4;j++) dv2[j]=v2.d[j]; Z(); p.getJacobianEnergyFromJacobiansTemperatureVmag2(T,u[0],vx*vx+vy*vy,dT,dv2,a); der("gas:dE-from-dT-dv2",a,d[3],ps*r1);
	  Z(); p.getJacobianDensityFromJacobiansPressureTemperature(P,T,dp,dT,a); der("gas:drho-from-dp-dT",a,d[0],u[0]*r1*r1); }
	{ double dv[8]={0},dvn[4]={0},dp[4]={0},dH[4]={0}; p.getJacobianVarsWrtConserved(u,n,dv,dvn,dp,dH); der("gas:dvars-v",dv,d[1]/d[0],vel); der("gas:dvars-v",dv+4,d[2]/d[0],vel); der("gas:dvars-vn",dvn,(d[1]*n[0]+d[2]*n[1])/d[0],vel*nm); der("gas:dvars-p",dp,rP(G,d),ps); der("gas:dvars-H",dH,(d[3]+rP(G,d))/d[0],vel*vel); }
	{ double Jp[16]={0}; p.getJacobianPrimitive2WrtConserved(u,Jp); D4 q[4]={d[0],d[1]/d[0],d[2]/d[0],rT(G,d)}; for(int i=0;i<4;i++) der("gas:dprim2",Jp+4*i,q[i],i==3?Ts*r1:sp2[i]); }
	if(T<50) { double mu=rMu(G,T),ms=mu*(1+1.5*r1); chk("gas:viscosity",p.getViscosityCoeffFromConserved(u),mu,1e-10,ms*r1,ctx); chk("gas:viscosity-T",p.getViscosityCoeffFromTemperature(T),mu,e,mu,ctx); Z(); p.getJacobianSutherlandViscosityWrtConserved(u,a); { D4 good=rMu(G,rT(G,d)); asFound.mu=true; D4 kn=rMu(G,rT(G,d)); asFound.mu=false; for(int j=0;j<4;j++) chkK("gas:dviscosity",a[j],good.d[j],kn.d[j],ej,(ms*r1*r1+std::fabs(kn.d[j])*s[j])/s[j],ctx); }
		double k=mu/(G.M*G.M*(G.g-1)*G.Pr); chk("gas:conductivity",p.getThermalConductivityFromViscosity(mu),k,e,k,ctx); double dk[4]={0},dm[4]={1,2,3,4}; p.getJacobianThermCondWrtConservedFromJacobianSutherViscWrtConserved(dm,dk); for(int j=0;j<4;j++) chk("gas:dconductivity",dk[j],dm[j]/(G.M*G.M*(G.g-1)*G.Pr),e,dm[j]/(G.M*G.M*(G.g-1)*G.Pr),ctx); }
	chk("gas:constvisc",p.getConstantViscosityCoeff(),1/G.Re,e,1/G.Re,ctx); double pinf=1/(G.g*G.M*G.M); chk("gas:pinf",p.getFreestreamPressure(),pinf,e,pinf,ctx);
	{ double aoa=r.u(-3.2,3.2); auto us=p.compute_freestream_state(aoa); double uf[4]; freestream(G,aoa,uf); for(int i=0;i<4;i++) chk("gas:freestream",us[i],uf[i],e,1+pinf/(G.g-1),ctx); chk("gas:freestream-T",p.getTemperatureFromConserved(&us[0]),1,1e-10,1+G.M*G.M*G.g,ctx); chk("gas:freestream-Mach",1/p.getSoundSpeedFromConserved(&us[0]),G.M,1e-10,G.M*(1+G.M*G.M*G.g),ctx); }
	// finite pressure change and gradients
	{ double w[4]; rndState(r,G,w); if(r.p(0.5)) for(int i=0;i<4;i++) w[i]=u[i]+1e-4*(w[i]-u[i]); double du[4]; for(int i=0;i<4;i++) du[i]=w[i]-u[i]; double sw[4],vw; scales(G,w,sw,vw); double sc=(sw[3]+s[3])*(1+u[0]/w[0]+w[0]/u[0]); double kn=0; for(int i=2;i<4;i++) kn-=(u[i]+w[i])*(u[0]+w[0])/2*du[i]-(w[i]*w[i]+u[i]*u[i])/2*du[0]; kn=(G.g-1)*(du[3]-kn/(2*u[0]*w[0])); double ks=std::fabs(kn)+sc*(u[3]+w[3])/std::min(u[0],w[0]); (void)ks;
	  double got=p.getDeltaPressureFromConserved(u,du); if(std::fabs(got-kn)<=1e-9*(std::fabs(kn)+sc)) chkK("gas:delta-pressure",got,rP(G,w)-P,got,1e-11,sc,ctx+" to "+su(w)); else chk("gas:delta-pressure",got,rP(G,w)-P,1e-11,sc,ctx+" to "+su(w)); }
	{ double gu[4]; for(int i=0;i<4;i++) gu[i]=s[i]*r.u(-2,2); typedef Dual<1> D1; D1 x[4]; for(int i=0;i<4;i++) { x[i]=D1(u[i]); x[i].d[0]=gu[i]; } double gp=rP(G,x).d[0],gT=rT(G,x).d[0],gvx=(x[1]/x[0]).d[0],gvy=(x[2]/x[0]).d[0];
	  chk("gas:gradp",p.getGradPressureFromConservedAndGradConserved(u,gu),gp,e,6*ps,ctx); chk("gas:gradT",p.getGradTemperature(u[0],gu[0],P,gp),gT,e,10*Ts*r1,ctx); chk("gas:gradT-cons",p.getGradTemperatureFromConservedAndGradConserved(u,gu),gT,e,10*Ts*r1,ctx);
	  double gpr[4]={gu[0],gvx,gvy,gp}; chk("gas:gradT-prim",p.getGradTemperatureFromConservedAndGradPrimitive(u,gpr),gT,e,10*Ts*r1,ctx); double g2[4]; p.getGradPrimitive2FromConservedAndGradConserved(u,gu,g2); double rr[4]={gu[0],gvx,gvy,gT},sr[4]={2*u[0],6*vel,6*vel,10*Ts*r1}; for(int i=0;i<4;i++) chk("gas:gradprim2",g2[i],rr[i],e,sr[i],ctx);
	  for(int i=0;i<4;i++) g2[i]=gu[i]; p.getGradPrimitive2FromConservedAndGradConserved(u,g2,g2); for(int i=0;i<4;i++) chk("gas:gradprim2-inplace",g2[i],rr[i],e,sr[i],ctx); }
	{ double mu=r.lu(1e-6,1),g[2][4],st[2][2]; for(auto&q:g) for(double&x:q) x=r.u(-5,5); p.getStressTensor(mu,g,st); double dv=g[0][1]+g[1][2]; for(int i=0;i<2;i++) for(int j=0;j<2;j++) chk("gas:stress",st[i][j],mu*(g[i][j+1]+g[j][i+1])-(i==j?2./3*mu*dv:0),e,20*mu,ctx);
	  double dmu[4],dg[2][4][4],ds[2][2][4]; for(double&x:dmu) x=mu*r.u(-1,1); for(auto&q:dg) for(auto&w:q) for(double&x:w) x=r.u(-5,5); p.getJacobianStress(mu,dmu,g,dg,st,ds); for(int i=0;i<2;i++) for(int j=0;j<2;j++) { chk("gas:stress-j",st[i][j],mu*(g[i][j+1]+g[j][i+1])-(i==j?2./3*mu*dv:0),e,20*mu,ctx);
		for(int k=0;k<4;k++) { double ddv=dg[0][1][k]+dg[1][2][k]; chk("gas:dstress",ds[i][j][k],dmu[k]*(g[i][j+1]+g[j][i+1])+mu*(dg[i][j+1][k]+dg[j][i+1][k])-(i==j?2./3*(dmu[k]*dv+mu*ddv):0),e,50*mu,ctx); } } }
	rep.count("states checked"); if(std::hypot(vx,vy)>c) rep.count("supersonic states"); rep.sample(ctx); (void)z;
}

static InviscidFlux<double>* mk(int k,const Phys*p) { switch(k) { case LLF: return new LocalLaxFriedrichsFlux<double>(p); case VANLEER: return new VanLeerFlux<double>(p); case ROE: return new RoeFlux<double>(p); case HLL: return new HLLFlux<double>(p); case HLLC: return new HLLCFlux<double>(p); case AUSM: return new AUSMFlux<double>(p); default: return new AUSMPlusFlux<double>(p); } }
static std::string gctx(const Gas&G,const double*n,const double*ul,const double*ur) { return sf("g=%.17g M=%.17g n=(%.17g %.17g) ul=",G.g,G.M,n[0],n[1])+su(ul)+" ur="+su(ur); }
static void pairStates(Rng&r,const Gas&G,const double*n,double*ul,double*ur,std::string&kind) {
	rndState(r,G,ul); rndState(r,G,ur); double q=r.u(); kind="independent";
	if(q<0.25) { double e=r.lu(1e-6,0.3); for(int i=0;i<4;i++) ur[i]=ul[i]*(1+e*r.u(-1,1)); if(rP(G,ur)<=0) for(int i=0;i<4;i++) ur[i]=ul[i]; kind="close"; }
	else if(q<0.40) { // both supersonic across the face, either way
		double s=r.p(0.5)?1:-1; for(double*u:{ul,ur}) { double rho=r.lu(0.1,10),c=r.lu(0.3,3)/G.M,M=r.u(1.02,3),vt=c*r.u(-1,1)*r.i(0,1); toCons(G,rho,s*M*c*n[0]-vt*n[1],s*M*c*n[1]+vt*n[0],rho*c*c/G.g,u); } kind="supersonic"; }
	else if(q<0.5) { // low speed / stagnant, contact
		double rho=r.lu(0.1,10),c=1/G.M,p=rho*c*c/G.g,v=r.lu(1e-6,0.1)*c*(r.p(0.5)?1:-1); toCons(G,rho,v*n[0],v*n[1],p,ul); toCons(G,rho*r.lu(0.3,3),v*n[0],v*n[1],p,ur); kind="contact"; }
	else if(q<0.56) { // sonic expansion: eigenvalue inside the entropy fix
		double rho=r.lu(0.1,10),c=r.lu(0.3,3)/G.M; double M=1+r.u(-2e-4,2e-4),s=r.p(0.5)?1:-1; toCons(G,rho,s*M*c*n[0],s*M*c*n[1],rho*c*c/G.g,ul); double e=1e-5; toCons(G,rho*(1+e*r.u(-1,1)),s*M*c*n[0]*(1+e*r.u(-1,1)),s*M*c*n[1]*(1+e*r.u(-1,1)),rho*c*c/G.g*(1+e*r.u(-1,1)),ur); kind="sonic"; }
	else if(q<0.6) { double rho=r.lu(0.1,10),c=r.lu(0.3,3)/G.M,vt=c*r.u(-2,2); double vn=c*r.u(-2e-4,2e-4); toCons(G,rho,vn*n[0]-vt*n[1],vn*n[1]+vt*n[0],rho*c*c/G.g,ul); double e=1e-5; toCons(G,rho*(1+e*r.u(-1,1)),vn*n[0]-vt*n[1],vn*n[1]+vt*n[0],rho*c*c/G.g*(1+e*r.u(-1,1)),ur); kind="stagnant"; }
}
static void flux(Rng&r,int) {
	Gas G=rndGas(r); Phys p(G.g,G.M,G.Tinf,G.Re,G.Pr); double ul[4],ur[4],n[2]; rndN(r,n); std::string kind; pairStates(r,G,n,ul,ur,kind);
	std::string ctx=gctx(G,n,ul,ur); double sl[4],sr[4],vl,vr; scales(G,ul,sl,vl); scales(G,ur,sr,vr); double ve=vl+vr;
	uint64_t h=mix(hashd(ul,4),hashd(ur,4)); double cl=rC(G,ul),cr=rC(G,ur),vnl=(ul[1]*n[0]+ul[2]*n[1])/ul[0],vnr=(ur[1]*n[0]+ur[2]*n[1])/ur[0];
	rep.count("pairs "+kind);
	for(int k=0;k<NFLUX;k++) {
		std::unique_ptr<InviscidFlux<double>> F(mk(k,&p)); double f[4],ref[4],g[4]; rep.eval(mix(h,k)); std::string N=fluxName[k];
		F->get_flux(ul,ur,n,f); rFlux(k,G,ul,ur,n,ref); const double tol=1e-9; double sc[4]; for(int i=0;i<4;i++) sc[i]=(sl[i]+sr[i])*ve*(1+std::max(sl[0]/sr[0],sr[0]/sl[0])*1e-2);
		for(int i=0;i<4;i++) chk(("flux-formula:"+N).c_str(),f[i],ref[i],tol,sc[i],ctx);
		double nm[2]={-n[0],-n[1]}; F->get_flux(ur,ul,nm,g); for(int i=0;i<4;i++) chk(("flux-antisymmetry:"+N).c_str(),g[i],-f[i],tol,sc[i],ctx);
		for(const double*u:{(const double*)ul,(const double*)ur}) { F->get_flux(u,u,n,g); double e[4]; rF(G,u,n,e); for(int i=0;i<4;i++) chk(("flux-consistency:"+N).c_str(),g[i],e[i],tol,sc[i],ctx); }
		// rotation
		double th=r.u(0,6.28),c=std::cos(th),s=std::sin(th); auto rot=[&](const double*a,double*b,int o) { b[o]=c*a[o]-s*a[o+1]; b[o+1]=s*a[o]+c*a[o+1]; }; double rl[4]={ul[0],0,0,ul[3]},rr[4]={ur[0],0,0,ur[3]},rn[2]; rot(ul,rl,1); rot(ur,rr,1); rot(n,rn,0); F->get_flux(rl,rr,rn,g); double fr[4]={f[0],0,0,f[3]}; rot(f,fr,1); for(int i=0;i<4;i++) chk(("flux-rotation:"+N).c_str(),g[i],fr[i],tol*10,sc[i],ctx);
		// upwinding when every wave runs one way
		if(k!=LLF) {
			double vt2l=vl*0,q2l=(ul[1]*ul[1]+ul[2]*ul[2])/(ul[0]*ul[0]),q2r=(ur[1]*ur[1]+ur[2]*ur[2])/(ur[0]*ur[0]); (void)vt2l;
			auto crit=[&](double cc,double q2) { return std::sqrt(2*(G.g-1)/(G.g+1)*(cc*cc/(G.g-1)+0.5*q2)); }; double al=cl,ar=cr; if(k==AUSMPLUS) { al=std::max(cl,crit(cl,q2l)); ar=std::max(cr,crit(cr,q2r)); }
			// Roe-averaged speed for the Roe family
			double w1=std::sqrt(ul[0]),w2=std::sqrt(ur[0]),Hl=(ul[3]+rP(G,ul))/ul[0],Hr=(ur[3]+rP(G,ur))/ur[0],ax=(ul[1]/w1+ur[1]/w2)/(w1+w2),ay=(ul[2]/w1+ur[2]/w2)/(w1+w2),Ha=(w1*Hl+w2*Hr)/(w1+w2),ca=std::sqrt((G.g-1)*(Ha-0.5*(ax*ax+ay*ay))),va=ax*n[0]+ay*n[1];
			bool roef=k==ROE||k==HLL||k==HLLC; double m=1.001;
			bool R= vnl>m*al&&vnr>m*ar&&(!roef||va>m*ca), L= -vnl>m*al&&-vnr>m*ar&&(!roef||-va>m*ca);
			if(R||L) { double e[4]; rF(G,R?ul:ur,n,e); for(int i=0;i<4;i++) chk(("flux-upwind:"+N).c_str(),f[i],e[i],tol,sc[i],ctx); rep.count("upwind cases"); }
		}
	}
	rep.sample(kind+" "+ctx);
}
static void fluxjac(Rng&r,int) {
	Gas G=rndGas(r); Phys p(G.g,G.M,G.Tinf,G.Re,G.Pr); double ul[4],ur[4],n[2]; rndN(r,n); std::string kind; pairStates(r,G,n,ul,ur,kind);
	std::string ctx=gctx(G,n,ul,ur); double sl[4],sr[4],vl,vr; scales(G,ul,sl,vl); scales(G,ur,sr,vr); double ve=vl+vr; uint64_t h=mix(hashd(ul,4),hashd(ur,4));
	D8 a[4],b[4]; seed8(ul,ur,a,b);
	for(int k:{(int)LLF,(int)ROE,(int)HLL,(int)HLLC,(int)AUSM,100}) {
		bool exact2=k==100; int kk=exact2?LLF:k; D8 f[4]; double mg; rFlux(kk,G,a,b,n,f,&mg); if(!(mg>1e-7)) { rep.count("skipped near a switch"); continue; } // derivative undefined at a switch
		if(k==LLF||k==HLL) rFluxFrozen(kk,G,a,b,n,f);
		std::unique_ptr<InviscidFlux<double>> F(mk(kk,&p)); double L[16],U[16]; for(int i=0;i<16;i++) L[i]=U[i]=1e300*(i%2?1:-1);
		if(exact2) static_cast<LocalLaxFriedrichsFlux<double>*>(F.get())->get_jacobian_2(ul,ur,n,L,U); else F->get_jacobian(ul,ur,n,L,U);
		rep.eval(mix(h,k)); rep.count(std::string("jacobians ")+(exact2?"LLF-exact":fluxName[k])); std::string key=std::string("fluxjac:")+(exact2?"LLF-exact":fluxName[k]);
		double P1=rP(G,ul)/sl[3],P2=rP(G,ur)/sr[3],cond=1/(P1*P1)+1/(P2*P2)+sl[0]/sr[0]+sr[0]/sl[0];
		double ksc= k==ROE&&kind=="sonic"? 1e2:1;
		D8 fk[4]; if(k==ROE) { asFound.roe=true; rFlux(kk,G,a,b,n,fk); asFound.roe=false; } else for(int i=0;i<4;i++) fk[i]=f[i];
		for(int i=0;i<4;i++) for(int j=0;j<4;j++) { double fs=(sl[i]+sr[i])*ve;
			chkK((key+"-left").c_str(),-L[4*i+j],f[i].d[j],fk[i].d[j],1e-9*ksc,fs/sl[j]*cond,ctx); chkK((key+"-right").c_str(),U[4*i+j],f[i].d[4+j],fk[i].d[4+j],1e-9*ksc,fs/sr[j]*cond,ctx); }
	}
	rep.count("pairs "+kind); rep.sample(kind+" "+ctx);
}
static const char*bcn[]={"slipwall","farfield","inflowoutflow","subsonic_inflow","extrapolation","adiabaticwall","isothermalwall"};
static void bc(Rng&r,bool jac) {
	Gas G=rndGas(r); Phys p(G.g,G.M,G.Tinf,G.Re,G.Pr); double n[2]; rndN(r,n); double aoa=r.u(-3.1,3.1); BCd d; freestream(G,aoa,d.uinf); auto ua=p.compute_freestream_state(aoa);
	std::vector<FlowBCConfig> cf; static const BCType bt[]={SLIP_WALL_BC,FARFIELD_BC,INFLOW_OUTFLOW_BC,SUBSONIC_INFLOW_BC,EXTRAPOLATION_BC,ADIABATIC_WALL_BC,ISOTHERMAL_WALL_BC};
	std::vector<BCd> ds; double pinf=1/(G.g*G.M*G.M);
	std::vector<int> order; for(int k=0;k<7;k++) order.push_back(k); if(r.p(0.5)) order.push_back(5); if(r.p(0.5)) order.push_back(6); r.shuffle(order); int tag=r.i(1,50);
	for(int k:order) { BCd e=d; e.kind=k; e.cart=false; e.v0=e.v1=0; e.wv[0]=e.wv[1]=0; FlowBCConfig c; c.bc_tag=tag; tag+=r.i(1,3); c.bc_type=bt[k];
		if(k==B_SUBIN) { e.v0=pinf*r.u(1.0,2); e.v1=r.u(0.7,1.6); c.bc_vals={e.v0,e.v1*G.Tinf}; }
		if(k==B_ADIA) { e.v0=r.p(0.3)?0:r.u(-3,3); c.bc_vals={e.v0}; } if(k==B_ISO) { e.v0=r.p(0.3)?0:r.u(-3,3); e.v1=r.u(0.7,1.6); c.bc_vals={e.v0,e.v1*G.Tinf}; }
		cf.push_back(c); ds.push_back(e); }
	auto mp=create_const_flowBCs<double>(cf,p,ua); if(mp.size()!=cf.size()) rep.viol("bc:factory-count","%zu objects for %zu configured boundaries",mp.size(),cf.size());
	std::array<double,2> wv={{r.u(-2,2),r.u(-2,2)}}; Adiabaticwall<double>&aw=*new Adiabaticwall<double>(77,p,wv);
	for(size_t q=0;q<=cf.size();q++) {
		const FlowBC<double>*B; BCd e=d; std::string nm; if(q==cf.size()) { B=&aw; e.kind=B_ADIA; e.cart=true; e.wv[0]=wv[0]; e.wv[1]=wv[1]; nm="adiabaticwall-cartesian"; }
		else { auto it=mp.find(cf[q].bc_tag); if(it==mp.end()) { rep.viol("bc:factory-tag","no boundary object for marker %d",cf[q].bc_tag); continue; } B=it->second; e=ds[q]; nm=bcn[e.kind]; if(B->bctag()!=cf[q].bc_tag) rep.viol("bc:tag","object says marker %d, configured %d",B->bctag(),cf[q].bc_tag); if(B->bctype!=cf[q].bc_type) rep.viol("bc:type","marker %d",cf[q].bc_tag); }
		double u[4]; rndState(r,G,u); if(e.kind==B_SUBIN) { double c=r.lu(0.5,2)/G.M,rho=r.lu(0.2,5),M=r.u(0.02,0.95),t=r.u(-0.6,0.6); double vn=-M*c*std::cos(t),vt=M*c*std::sin(t); toCons(G,rho,vn*n[0]-vt*n[1],vn*n[1]+vt*n[0],rho*c*c/G.g,u); }
		if(e.kind==B_INOUT&&r.p(0.5)) { double c=r.lu(0.5,2)/G.M,rho=r.lu(0.2,5),M=r.u(-1.6,1.6),vt=r.u(-1,1)*c; toCons(G,rho,M*c*n[0]-vt*n[1],M*c*n[1]+vt*n[0],rho*c*c/G.g,u); }
		double s[4],vel; scales(G,u,s,vel); double wall=std::fabs(e.v0)+std::fabs(e.wv[0])+std::fabs(e.wv[1]); if(e.kind==B_SUBIN) wall=0; double vs=vel+2*wall+1+1/G.M; double ss[4]={u[0]+1,(u[0]+1)*vs,(u[0]+1)*vs,(u[0]+1)*vs*vs};
		D4 ud[4],gd[4]; for(int i=0;i<4;i++) ud[i]=D4::var(u[i],i); double mg; rGhost(e,G,ud,n,gd,&mg); if(mg<1e-7) continue;
		std::string ctx=nm+sf(" v=(%.17g %.17g) g=%.17g M=%.17g Tinf=%.17g n=(%.17g %.17g) aoa=%.17g u=",e.v0,e.v1,G.g,G.M,G.Tinf,n[0],n[1],aoa)+su(u);
		double g[4]={1e300,1e300,1e300,1e300}; rep.eval(mix(hashd(u,4),q)); rep.count((jac?"jacobians ":"ghost states ")+nm);
		if(!jac) {
			B->computeGhostState(u,n,g); double gsc= e.kind==B_SUBIN? 0:0; (void)gsc; double S[4]; for(int i=0;i<4;i++) S[i]=ss[i]; if(e.kind==B_SUBIN) { double sg[4],vg,gv[4]; for(int i=0;i<4;i++) gv[i]=gd[i].v; scales(G,gv,sg,vg); for(int i=0;i<4;i++) S[i]=sg[i]*10*std::pow(1+vel/rC(G,u),2); }
			for(int i=0;i<4;i++) chk(("bc-state:"+nm).c_str(),g[i],gd[i].v,1e-9,S[i],ctx);
			if(e.kind!=B_SUBIN&&!(g[0]>0)) rep.viol("bc-density:"+nm,"ghost density %g %s",g[0],ctx.c_str());
			// physical statements, from the ghost state alone
			double mL=(u[1]*n[0]+u[2]*n[1]),mR=(g[1]*n[0]+g[2]*n[1]);
			if(e.kind==B_SLIP||(e.kind==B_ADIA&&!e.cart)||e.kind==B_ISO) if(!(std::fabs(mL+mR)<=1e-9*ss[1])) rep.viol("bc-wall-normal:"+nm,"normal momentum %g inside, %g in the ghost state %s",mL,mR,ctx.c_str());
			if(e.kind==B_SLIP||e.kind==B_ADIA) chk(("bc-wall-pressure:"+nm).c_str(),rP(G,g),rP(G,u),1e-9,ss[3],ctx);
			if(e.kind==B_ISO) chk("bc-wall-temperature",0.5*(rT(G,g)+rT(G,u)),e.v1,1e-9,1+G.g*G.M*G.M*vs*vs,ctx);
			if(e.kind==B_SUBIN) { double pg=rP(G,g),Tg=rT(G,g),vg2=(g[1]*g[1]+g[2]*g[2])/(g[0]*g[0]),c2=G.g*pg/g[0],M2=vg2/c2; chk("bc-inflow-total-temperature",Tg*(1+0.5*(G.g-1)*M2),e.v1,1e-8,e.v1,ctx); chk("bc-inflow-total-pressure",pg*std::pow(1+0.5*(G.g-1)*M2,G.g/(G.g-1)),e.v0,1e-7,e.v0,ctx); if(!(mR<=1e-9*ss[1])) rep.viol("bc-inflow-direction","ghost momentum points out of the domain (%g) %s",mR,ctx.c_str()); }
			rep.sample(ctx);
		} else {
			if(e.kind==B_SUBIN) continue; // documented as not implemented
			double g2[4],J[16]; for(double&x:J) x=1e200; for(double&x:g2) x=1e300; B->computeGhostState(u,n,g); B->computeGhostStateAndJacobian(u,n,g2,J);
			for(int i=0;i<4;i++) { chk(("bcjac-state:"+nm).c_str(),g2[i],g[i],1e-10,ss[i],ctx); for(int j=0;j<4;j++) chk(("bcjac:"+nm).c_str(),J[4*i+j],gd[i].d[j],1e-9,ss[i]*(1+G.M*G.M)*(1+1/u[0])/s[j],ctx); }
			rep.sample(ctx);
		}
	}
	for(auto&x:mp) delete x.second;
}
template<bool CV> static void visc1(Rng&r) {
	Gas G=rndGas(r); Phys p(G.g,G.M,G.Tinf,G.Re,G.Pr); double n[2]; rndN(r,n); double ul[4],ur[4]; double c=1/G.M;
	for(double*u:{ul,ur}) { double rho=r.lu(0.2,5),cc=c*r.lu(0.5,2),M=r.u(0,1.5),t=r.u(0,6.28); toCons(G,rho,M*cc*std::cos(t),M*cc*std::sin(t),rho*cc*cc/G.g,u); }
	std::string ctx=gctx(G,n,ul,ur)+sf(" Re=%.17g Pr=%.17g Tinf=%.17g",G.Re,G.Pr,G.Tinf);
	double gl[8],gr[8],tl[4],tr[4],gtl[8],gtr[8]; for(int i=0;i<8;i++) { gl[i]=r.u(-3,3); gr[i]=r.u(-3,3); } double cT=G.g*G.M*G.M;
	// primitive-2 states and gradients
	for(int so=0;so<2;so++) {
		if(so) getPrimitive2StatesAndGradients<double,2,true>(p,ul,ur,gl,gr,tl,tr,gtl,gtr); else getPrimitive2StatesAndGradients<double,2,false>(p,ul,ur,nullptr,nullptr,tl,tr,nullptr,nullptr);
		for(int side=0;side<2;side++) { const double*u=side?ur:ul,*t=side?tr:tl; double e[4]={u[0],u[1]/u[0],u[2]/u[0],rT(G,u)}; for(int i=0;i<4;i++) chk("visc:prim2-state",t[i],e[i],1e-10,std::fabs(e[i])+c*(i>0&&i<3)+10*(i==3),ctx);
			if(so) { const double*g=side?gr:gl,*gt=side?gtr:gtl; for(int q=0;q<2;q++) { for(int i=0;i<3;i++) chk("visc:prim2-grad",gt[4*q+i],g[4*q+i],0,1,ctx); double P=rP(G,u); chk("visc:gradT",gt[4*q+3],cT*(g[4*q+3]*u[0]-P*g[4*q])/(u[0]*u[0]),1e-10,cT*(3/u[0]+3*u[3]/(u[0]*u[0])),ctx); } } } }
	double g[2][4]; for(auto&q:g) for(double&x:q) x=r.u(-3,3); double f[4]={1e300,1e300,1e300,1e300},rf[4]; computeViscousFlux<double,2,4,CV>(p,n,g,ul,ur,f); rVisc(G,n,g,ul,ur,CV,rf);
	double mu=CV?1/G.Re:0.5*(rMu(G,rT(G,ul))+rMu(G,rT(G,ur))),k=mu/(G.M*G.M*(G.g-1)*G.Pr); double S[4]={mu,20*mu,20*mu,20*mu*5*c+6*k}; for(int i=0;i<4;i++) chk(CV?"visc:flux-const":"visc:flux-sutherland",f[i],rf[i],1e-10,S[i],ctx);
	// antisymmetry
	double nm[2]={-n[0],-n[1]},f2[4]; computeViscousFlux<double,2,4,CV>(p,nm,g,ur,ul,f2); for(int i=0;i<4;i++) chk("visc:antisymmetry",f2[i],-f[i],1e-11,S[i],ctx);
	// Jacobian; the gradient is an arbitrary linear function of the two states
	double dl[2][4][4],dr[2][4][4]; D8 gd[2][4]; for(int q=0;q<2;q++) for(int i=0;i<4;i++) { gd[q][i]=D8(g[q][i]); for(int j=0;j<4;j++) { dl[q][i][j]=r.u(-3,3); dr[q][i][j]=r.u(-3,3); gd[q][i].d[j]=dl[q][i][j]; gd[q][i].d[4+j]=dr[q][i][j]; } }
	D8 a[4],b[4],fd[4]; seed8(ul,ur,a,b); rVisc(G,n,gd,a,b,CV,fd); D8 fk[4]; asFound.mu=true; rVisc(G,n,gd,a,b,CV,fk); asFound.mu=false; double L[16],U[16],L0[16],U0[16]; for(int i=0;i<16;i++) { L[i]=L0[i]=S[i/4]*r.u(-1,1); U[i]=U0[i]=S[i/4]*r.u(-1,1); }
	computeViscousFluxJacobian<double,2,4,CV>(p,n,ul,ur,g,dl,dr,L,U); double sl[4],sr[4],vv; scales(G,ul,sl,vv); scales(G,ur,sr,vv); double kc=100*(1+CV)*(1+1/G.M); (void)kc;
	for(int i=0;i<4;i++) for(int j=0;j<4;j++) { double sc=S[i]*10*(1+50/sl[j]+50/sr[j]); chkK(CV?"visc:jac-const-left":"visc:jac-sutherland-left",-(L[4*i+j]-L0[4*i+j]),fd[i].d[j],fk[i].d[j],1e-9,sc+std::fabs(fk[i].d[j]),ctx+sf(" entry %d %d",i,j)); chkK(CV?"visc:jac-const-right":"visc:jac-sutherland-right",U[4*i+j]-U0[4*i+j],fd[i].d[4+j],fk[i].d[4+j],1e-9,sc+std::fabs(fk[i].d[4+j]),ctx+sf(" entry %d %d",i,j)); }
	rep.eval(mix(hashd(ul,4),hashd(ur,4))); rep.count(CV?"constant viscosity":"Sutherland"); rep.sample(ctx);
}
int main(int c,char**v) {
	rep.init(); std::string m=v[1]; long seed=envl("VF_SEED",1),n=envl("VF_CASES",100);
	for(long k=0;k<n;k++) { Rng r(mix(seed,k)); rep.at(sf("%s %ld/%ld",m.c_str(),seed,k)); try {
		if(m=="gas") gas(r,0); else if(m=="flux") flux(r,0); else if(m=="fluxjac") fluxjac(r,0); else if(m=="bc") bc(r,false); else if(m=="bcjac") bc(r,true); else if(m=="visc") { visc1<true>(r); visc1<false>(r); } else return 3;
		} catch(const std::exception&e) { rep.viol("exception","%s",e.what()); } }
	rep.finish(); return 0;
}
