// Reference formulas, written from the literature / the documentation, independent of the code under test.
// Templated on the scalar, so that forward-mode dual numbers give reference derivatives.
#ifndef VF_REF_H
#define VF_REF_H
#include <cmath>
#include <array>
#include "common.hpp"
namespace vf {
template<int N> struct Dual {
	double v; double d[N];
	Dual(double x=0):v(x) { for(int i=0;i<N;i++) d[i]=0; }
	static Dual var(double x,int k) { Dual r(x); r.d[k]=1; return r; }
};
#define DOP(op,expr) template<int N> inline Dual<N> operator op(const Dual<N>&a,const Dual<N>&b) { Dual<N> r(a.v op b.v); for(int i=0;i<N;i++) r.d[i]=expr; return r; } \
 template<int N> inline Dual<N> operator op(const Dual<N>&a,double b) { return a op Dual<N>(b); } template<int N> inline Dual<N> operator op(double a,const Dual<N>&b) { return Dual<N>(a) op b; }
DOP(+,a.d[i]+b.d[i]) DOP(-,a.d[i]-b.d[i]) DOP(*,a.d[i]*b.v+a.v*b.d[i]) DOP(/,(a.d[i]*b.v-a.v*b.d[i])/(b.v*b.v))
#undef DOP
#define DCMP(op) template<int N> inline bool operator op(const Dual<N>&a,const Dual<N>&b) { return a.v op b.v; } template<int N> inline bool operator op(const Dual<N>&a,double b) { return a.v op b; }
DCMP(<) DCMP(>) DCMP(<=) DCMP(>=)
#undef DCMP
template<int N> inline Dual<N> operator-(const Dual<N>&a) { Dual<N> r(-a.v); for(int i=0;i<N;i++) r.d[i]=-a.d[i]; return r; }
template<int N> inline Dual<N> sqrt(const Dual<N>&a) { Dual<N> r(std::sqrt(a.v)); for(int i=0;i<N;i++) r.d[i]=0.5*a.d[i]/r.v; return r; }
template<int N> inline Dual<N> pow(const Dual<N>&a,double p) { Dual<N> r(std::pow(a.v,p)); double c=p*std::pow(a.v,p-1); for(int i=0;i<N;i++) r.d[i]=c*a.d[i]; return r; }
template<int N> inline Dual<N> fabs(const Dual<N>&a) { return a.v<0? -a:a; }
inline double val(double x) { return x; }
template<int N> inline double val(const Dual<N>&x) { return x.v; }
using std::sqrt; using std::pow; using std::fabs;

struct Gas { double g,M,Tinf,Re,Pr; };
static const double SUTH=110.5; // Sutherland constant used in the documentation, Kelvin
template<class T> using S4=std::array<T,4>;
template<class T> inline T rP(const Gas&G,const T*u) { return (G.g-1)*(u[3]-0.5*(u[1]*u[1]+u[2]*u[2])/u[0]); }
template<class T> inline T rC(const Gas&G,const T*u) { return sqrt(G.g*rP(G,u)/u[0]); }
template<class T> inline T rT(const Gas&G,const T*u) { return G.g*G.M*G.M*rP(G,u)/u[0]; }
template<class T> inline void rF(const Gas&G,const T*u,const double*n,T*f) { T vn=(u[1]*n[0]+u[2]*n[1])/u[0],p=rP(G,u); f[0]=u[0]*vn; f[1]=u[1]*vn+p*n[0]; f[2]=u[2]*vn+p*n[1]; f[3]=(u[3]+p)*vn; }
// "as found" derivatives: two recorded defects of the code's hand-written Jacobians (see known-findings.txt);
// with the switch on, derivatives (not values) are those of the recorded defect
struct AsFound { bool mu=false,roe=false; }; extern AsFound asFound;
inline void muAsFound(double&,double,double,double) {}
template<int N> inline void muAsFound(Dual<N>&r,const Dual<N>&t,double s,double c) { for(int i=0;i<N;i++) r.d[i]=c*(1.5*std::pow(t.v,-1.5)*t.d[i]*(t.v+s)-std::pow(t.v,1.5)*t.d[i])/((t.v+s)*(t.v+s)); }
template<class T> inline T rMu(const Gas&G,const T& t) { double s=SUTH/G.Tinf; T r=(1/G.Re)*pow(t,1.5)*(1+s)/(t+s); if(asFound.mu) muAsFound(r,t,s,(1+s)/G.Re); return r; }
inline void roeAsFound(double&,double,double,double) {}
template<int N> inline void roeAsFound(Dual<N>&r,const Dual<N>&a,const Dual<N>&d,double fe) { double l=r.v; for(int i=0;i<N;i++) { double dc=d.d[i]/fe; r.d[i]=((2*(l*a.d[i]+d.v*fe*dc)*2*d.v)-(l*l+d.v*d.v)*2*fe*dc)/(4*d.v*d.v); } }

enum FluxKind { LLF, VANLEER, ROE, HLL, HLLC, AUSM, AUSMPLUS };
static const char*const fluxName[]={"LLF","VANLEER","ROE","HLL","HLLC","AUSM","AUSMPLUS"};
static const int NFLUX=7;

// margin (optional): distance of the nearest branch switch, relative; used to stay away from kinks
template<class T> inline void rFlux(int k,const Gas&G,const T*ul,const T*ur,const double*n,T*f,double*margin=nullptr) {
	T pl=rP(G,ul),pr=rP(G,ur),cl=sqrt(G.g*pl/ul[0]),cr=sqrt(G.g*pr/ur[0]);
	T vl=(ul[1]*n[0]+ul[2]*n[1])/ul[0], vr=(ur[1]*n[0]+ur[2]*n[1])/ur[0];
	T fl[4],fr[4]; rF(G,ul,n,fl); rF(G,ur,n,fr);
	double mg=1e300; double cs=val(cl)+val(cr);
	auto sw=[&](const T&x,double sc) { mg=std::min(mg,std::fabs(val(x))/sc); };
	if(k==LLF) { T a=fabs(vl)+cl,b=fabs(vr)+cr; sw(a-b,cs); sw(a>b?vl:vr,cs); T e=a>b?a:b; for(int i=0;i<4;i++) f[i]=0.5*(fl[i]+fr[i]-e*(ur[i]-ul[i])); }
	else if(k==VANLEER) {
		auto half=[&](const T*u,const T&v,const T&c,double s,T*o) { // s=+1 / -1
			T M=v/c; if(!(s*M>-1)) { for(int i=0;i<4;i++) o[i]=T(0); return; }
			if(s*M>1) { rF(G,u,n,o); return; }
			T m=s*0.25*u[0]*c*(M+s)*(M+s); T w=(s*2.0*c-v)/G.g; o[0]=m; o[1]=m*(u[1]/u[0]+w*n[0]); o[2]=m*(u[2]/u[0]+w*n[1]);
			T vx=u[1]/u[0],vy=u[2]/u[0]; T q=(G.g-1)*v+s*2.0*c; o[3]=m*(q*q/(2*(G.g*G.g-1))+0.5*(vx*vx+vy*vy-v*v)); };
		sw(vl/cl-1.,1); sw(vl/cl+1.,1); sw(vr/cr-1.,1); sw(vr/cr+1.,1);
		T a[4],b[4]; half(ul,vl,cl,1,a); half(ur,vr,cr,-1,b); for(int i=0;i<4;i++) f[i]=a[i]+b[i];
	}
	else if(k==AUSM||k==AUSMPLUS) {
		T al=cl,ar=cr; double al1=0,be=0;
		if(k==AUSMPLUS) { al1=3./16; be=1./8;
			auto H=[&](const T*u,const T&p) { return (u[3]+p)/u[0]; };
			T a2l=2*(G.g-1)/(G.g+1)*H(ul,pl), a2r=2*(G.g-1)/(G.g+1)*H(ur,pr); T sl=sqrt(a2l),sr=sqrt(a2r);
			sw(sl-vl,cs); sw(sr+vr,cs);
			T tl=a2l/(sl>vl?sl:vl); T mvr=-vr; T tr=a2r/(sr>mvr?sr:mvr); sw(tl-tr,cs); T ah=tl<tr?tl:tr; al=ah; ar=ah; }
		T Ml=vl/al,Mr=vr/ar; sw(Ml-1.,1); sw(Ml+1.,1); sw(Mr-1.,1); sw(Mr+1.,1);
		auto Msp=[&](const T&M,double s)->T { if(fabs(M)>T(1)) { return 0.5*(M+s*fabs(M)); } T q=M*M-1.; return s*(0.25*(M+s)*(M+s)+be*q*q); };
		auto Psp=[&](const T&M,double s)->T { if(fabs(M)>T(1)) { return s*M>T(0)?T(1):T(0); } T q=M*M-1.; return 0.25*(M+s)*(M+s)*(2.-s*M)+s*al1*M*q*q; };
		T m=Msp(Ml,1)+Msp(Mr,-1); T ph=Psp(Ml,1)*pl+Psp(Mr,-1)*pr; sw(m,1);
		bool L=m>=T(0); const T*u=L?ul:ur; T a=L?al:ar; T md=m*a; T p=L?pl:pr;
		f[0]=md*u[0]; f[1]=md*u[1]+ph*n[0]; f[2]=md*u[2]+ph*n[1]; f[3]=md*(u[3]+p);
	}
	else { // Roe averages
		T sl=sqrt(ul[0]),sr=sqrt(ur[0]); T Hl=(ul[3]+pl)/ul[0],Hr=(ur[3]+pr)/ur[0];
		T w=sl+sr; T vx=(ul[1]/sl+ur[1]/sr)/w, vy=(ul[2]/sl+ur[2]/sr)/w, H=(sl*Hl+sr*Hr)/w, rho=sl*sr; T q2=vx*vx+vy*vy; T c=sqrt((G.g-1)*(H-0.5*q2)); T vn=vx*n[0]+vy*n[1];
		if(k==ROE) {
			double dl=1e-4; auto fix=[&](const T&x)->T { T a=fabs(x); T d=dl*c; sw(a-d,val(c)); if(a<d) { sw(x,val(d)); T q=(a*a+d*d)/(2.*d); if(asFound.roe) roeAsFound(q,a,d,dl); return q; } return a; };
			T l1=fix(vn-c),l2=fix(vn),l3=fix(vn+c); T dr=ur[0]-ul[0],dp=pr-pl,dv=vr-vl; T dux=ur[1]/ur[0]-ul[1]/ul[0],duy=ur[2]/ur[0]-ul[2]/ul[0];
			T a1=l1*(dp-rho*c*dv)/(2.*c*c), a3=l3*(dp+rho*c*dv)/(2.*c*c), a2=l2*(dr-dp/(c*c)), a4=l2*rho;
			T D[4]={a1+a2+a3, a1*(vx-c*n[0])+a2*vx+a3*(vx+c*n[0])+a4*(dux-dv*n[0]), a1*(vy-c*n[1])+a2*vy+a3*(vy+c*n[1])+a4*(duy-dv*n[1]), a1*(H-c*vn)+a2*0.5*q2+a3*(H+c*vn)+a4*(vx*dux+vy*duy-vn*dv)};
			for(int i=0;i<4;i++) f[i]=0.5*(fl[i]+fr[i]-D[i]);
		} else {
			T x=vl-cl,y=vn-c; sw(x-y,cs); T SL=x<y?x:y; x=vr+cr; y=vn+c; sw(x-y,cs); T SR=x>y?x:y; sw(SL,cs); sw(SR,cs);
			if(k==HLL) { if(SL>=T(0)) for(int i=0;i<4;i++) f[i]=fl[i]; else if(SR<=T(0)) for(int i=0;i<4;i++) f[i]=fr[i]; else for(int i=0;i<4;i++) f[i]=(SR*fl[i]-SL*fr[i]+SL*SR*(ur[i]-ul[i]))/(SR-SL); }
			else { T SM=(pr-pl+ul[0]*vl*(SL-vl)-ur[0]*vr*(SR-vr))/(ul[0]*(SL-vl)-ur[0]*(SR-vr)); sw(SM,cs);
				if(SL>=T(0)) for(int i=0;i<4;i++) f[i]=fl[i]; else if(SR<=T(0)) for(int i=0;i<4;i++) f[i]=fr[i];
				else { bool L=SM>=T(0); const T*u=L?ul:ur; T S=L?SL:SR,v=L?vl:vr,p=L?pl:pr; const T*ff=L?fl:fr;
					T r=u[0]*(S-v)/(S-SM); T us[4]={r, r*(u[1]/u[0]+(SM-v)*n[0]), r*(u[2]/u[0]+(SM-v)*n[1]), r*(u[3]/u[0]+(SM-v)*(SM+p/(u[0]*(S-v))))};
					for(int i=0;i<4;i++) f[i]=ff[i]+S*(us[i]-u[i]); } }
		}
	}
	if(margin) *margin=mg;
}
// flux with signal speeds supplied (for the documented "frozen" Jacobians)
template<class T> inline void rFluxFrozen(int k,const Gas&G,const T*ul,const T*ur,const double*n,T*f) {
	double dl[4],dr[4]; for(int i=0;i<4;i++) { dl[i]=val(ul[i]); dr[i]=val(ur[i]); }
	double cl=rC(G,dl),cr=rC(G,dr),vl=(dl[1]*n[0]+dl[2]*n[1])/dl[0],vr=(dr[1]*n[0]+dr[2]*n[1])/dr[0]; T fl[4],fr[4]; rF(G,ul,n,fl); rF(G,ur,n,fr);
	if(k==LLF) { double e=std::max(std::fabs(vl)+cl,std::fabs(vr)+cr); for(int i=0;i<4;i++) f[i]=0.5*(fl[i]+fr[i]-e*(ur[i]-ul[i])); return; }
	double sl=std::sqrt(dl[0]),sr=std::sqrt(dr[0]),w=sl+sr; double Hl=(dl[3]+rP(G,dl))/dl[0],Hr=(dr[3]+rP(G,dr))/dr[0];
	double vx=(dl[1]/sl+dr[1]/sr)/w,vy=(dl[2]/sl+dr[2]/sr)/w,H=(sl*Hl+sr*Hr)/w,c=std::sqrt((G.g-1)*(H-0.5*(vx*vx+vy*vy))),vn=vx*n[0]+vy*n[1];
	double SL=std::min(vl-cl,vn-c),SR=std::max(vr+cr,vn+c);
	if(SL>=0) for(int i=0;i<4;i++) f[i]=fl[i]; else if(SR<=0) for(int i=0;i<4;i++) f[i]=fr[i]; else for(int i=0;i<4;i++) f[i]=(SR*fl[i]-SL*fr[i]+(SL*SR)*(ur[i]-ul[i]))/(SR-SL);
}
inline void toCons(const Gas&G,double r,double vx,double vy,double p,double*u) { u[0]=r; u[1]=r*vx; u[2]=r*vy; u[3]=p/(G.g-1)+0.5*r*(vx*vx+vy*vy); }
inline void freestream(const Gas&G,double aoa,double*u) { toCons(G,1,std::cos(aoa),std::sin(aoa),1/(G.g*G.M*G.M),u); }

// boundary conditions; kinds as in the code's documentation
enum BCK { B_SLIP, B_FAR, B_INOUT, B_SUBIN, B_EXTRAP, B_ADIA, B_ISO };
struct BCd { int kind; double v0,v1; double uinf[4]; double wv[2]; bool cart; };
template<class T> inline void rGhost(const BCd&b,const Gas&G,const T*u,const double*n,T*g,double*margin=nullptr) {
	T vn=(u[1]*n[0]+u[2]*n[1])/u[0]; double mg=1e300;
	switch(b.kind) {
	case B_SLIP: g[0]=u[0]; g[1]=u[1]-2.*(u[0]*vn)*n[0]; g[2]=u[2]-2.*(u[0]*vn)*n[1]; g[3]=u[3]; break;
	case B_FAR: for(int i=0;i<4;i++) g[i]=T(b.uinf[i]); break;
	case B_EXTRAP: for(int i=0;i<4;i++) g[i]=u[i]; break;
	case B_INOUT: { T c=rC(G,u); mg=std::min(std::fabs(val(vn/c)),std::fabs(val(vn/c)-1));
		if(val(vn)<=0) for(int i=0;i<4;i++) g[i]=T(b.uinf[i]);
		else if(val(vn)<val(c)) { g[0]=u[0]; g[1]=u[1]; g[2]=u[2]; g[3]=1/(G.g*G.M*G.M)/(G.g-1)+0.5*(u[1]*u[1]+u[2]*u[2])/u[0]; }
		else for(int i=0;i<4;i++) g[i]=u[i]; } break;
	case B_ADIA: { double wx,wy; if(b.cart) { wx=b.wv[0]; wy=b.wv[1]; } else { wx=b.v0*n[1]; wy=-b.v0*n[0]; }
		// wall velocity is the mean of both sides, density and temperature mirrored
		T p=rP(G,u); T vx=2*wx-u[1]/u[0],vy=2*wy-u[2]/u[0]; g[0]=u[0]; g[1]=u[0]*vx; g[2]=u[0]*vy; g[3]=p*(1/(G.g-1))+0.5*u[0]*(vx*vx+vy*vy); } break;
	case B_ISO: { double wx=b.v0*n[1],wy=-b.v0*n[0]; T vx=2*wx-u[1]/u[0],vy=2*wy-u[2]/u[0]; T Tg=2*b.v1-rT(G,u); g[0]=u[0]; g[1]=u[0]*vx; g[2]=u[0]*vy; g[3]=u[0]*(Tg*(1/(G.g*(G.g-1)*G.M*G.M))+0.5*(vx*vx+vy*vy)); } break;
	case B_SUBIN: { // Blazek 8.4: outgoing Riemann invariant and stagnation speed of sound from the interior; flow normal, into the domain
		T c=rC(G,u); T R=vn-2*c/(G.g-1); T v2=(u[1]*u[1]+u[2]*u[2])/(u[0]*u[0]); T c02=c*c+0.5*(G.g-1)*v2; T q=sqrt((G.g+1)*c02/((G.g-1)*R*R)-(G.g-1)/2);
		T cb=-(G.g-1)/(G.g+1)*R*(1.+q); T Tb=b.v1*cb*cb/c02; T pb=b.v0*pow(Tb/b.v1,G.g/(G.g-1)); T rb=G.g*G.M*G.M*pb/Tb; T vb=sqrt(2/((G.g-1)*G.M*G.M)*(b.v1-Tb)); g[0]=rb; g[1]=-rb*vb*n[0]; g[2]=-rb*vb*n[1]; g[3]=pb*(1/(G.g-1))+0.5*rb*vb*vb; } break;
	}
	if(margin) *margin=mg;
}
// viscous flux; grad[d][k] of (rho,vx,vy,T); sign: to be added to the inviscid flux
template<class T> inline void rVisc(const Gas&G,const double*n,const T grad[2][4],const T*ul,const T*ur,bool cvisc,T*f) {
	T mu= cvisc? T(1/G.Re) : 0.5*(rMu(G,rT(G,ul))+rMu(G,rT(G,ur))); T k=mu/(G.M*G.M*(G.g-1)*G.Pr);
	T div=grad[0][1]+grad[1][2]; T txx=mu*(2.*grad[0][1]-2./3*div),tyy=mu*(2.*grad[1][2]-2./3*div),txy=mu*(grad[0][2]+grad[1][1]);
	T vx=0.5*(ul[1]/ul[0]+ur[1]/ur[0]),vy=0.5*(ul[2]/ul[0]+ur[2]/ur[0]);
	f[0]=T(0); f[1]=-(txx*n[0]+txy*n[1]); f[2]=-(txy*n[0]+tyy*n[1]); f[3]=-(n[0]*(txx*vx+txy*vy+k*grad[0][3])+n[1]*(txy*vx+tyy*vy+k*grad[1][3]));
}
inline Gas rndGas(Rng&r) { Gas G; G.g=r.p(0.4)?1.4:r.u(1.1,1.67); G.M=r.lu(0.05,3); G.Tinf=r.u(150,500); G.Re=r.lu(1,1e6); G.Pr=r.u(0.5,1.2); if(r.p(0.06)) G.M=r.lu(3,25); if(r.p(0.06)) G.Re=r.p(0.5)?r.lu(1e6,1e9):r.lu(1e-2,1); if(r.p(0.04)) G.g=r.u(1.02,2.5); if(r.p(0.04)) G.Tinf=r.p(0.5)?r.lu(20,150):r.lu(500,4000); if(r.p(0.04)) G.Pr=r.lu(0.05,20); return G; }
// any direction, any normal Mach number in +-3 incl. supersonic both ways, strong jumps
inline void rndState(Rng&r,const Gas&G,double*u,double mmax=3) { double rho=r.lu(0.05,20), c2=r.lu(0.05,20)/(G.M*G.M); double c=std::sqrt(c2); double M=r.u(0,mmax)*(r.p(0.3)?0.2:1),th=r.u(0,2*M_PI); toCons(G,rho,M*c*std::cos(th),M*c*std::sin(th),rho*c2/G.g,u); }
inline void rndN(Rng&r,double*n) { double t=r.u(0,2*M_PI); if(r.p(0.15)) t=M_PI/2*r.i(0,3); n[0]=std::cos(t); n[1]=std::sin(t); }
}
#endif
