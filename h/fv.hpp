// Running the real discretisation on generated meshes, and an independent reference finite-volume scheme
// built from the generator's mesh alone (own geometry, own gradients, own reconstruction, own fluxes).
#ifndef VF_FV_H
#define VF_FV_H
#include "pmpi.hpp"
#include "ref.hpp"
#include <memory>
#include "aconstants.hpp"
#include "mesh/mesh.hpp"
#include "mesh/meshreaders.hpp"
#include "mesh/ameshutils.hpp"
#include "linalg/alinalg.hpp"
#include "spatial/flow_spatial.hpp"
#include "utilities/afactory.hpp"
namespace vf {
using namespace fvens;
enum { GR_NONE, GR_GG, GR_LSQ }; static const char*const gradName[]={"NONE","GREENGAUSS","LEASTSQUARES"};
enum { RC_NONE, RC_WENO, RC_VANALBADA, RC_BJ, RC_VENKAT }; static const char*const recName[]={"NONE","WENO","VANALBADA","BARTHJESPERSEN","VENKATAKRISHNAN"};
static const char*const bcnm[]={"slipwall","farfield","inflowoutflow","subsonic_inflow","extrapolation","adiabaticwall","isothermalwall"};
typedef std::vector<std::array<double,4>> U4;

struct Case {
	GMesh gm; std::unique_ptr<Geo> geo; Gas G; double aoa=0; bool visc=false,cvisc=false,o2=false; int flux=0,jflux=0,grad=0,rec=0; double lim=1;
	std::map<int,BCd> bc; FlowPhysicsConfig pc; FlowNumericsConfig nc; double uinf[4]; U4 u; std::string desc;
	void setGeo() { geo.reset(new Geo(gm)); }
	void conf() { pc.gamma=G.g; pc.Minf=G.M; pc.Tinf=G.Tinf; pc.Reinf=G.Re; pc.Pr=G.Pr; pc.aoa=aoa; pc.viscous_sim=visc; pc.const_visc=cvisc; pc.bcconf.clear();
		static const BCType bt[]={SLIP_WALL_BC,FARFIELD_BC,INFLOW_OUTFLOW_BC,SUBSONIC_INFLOW_BC,EXTRAPOLATION_BC,ADIABATIC_WALL_BC,ISOTHERMAL_WALL_BC};
		freestream(G,aoa,uinf);
		for(auto&b:bc) { for(int i=0;i<4;i++) b.second.uinf[i]=uinf[i]; FlowBCConfig c; c.bc_tag=b.first; c.bc_type=bt[b.second.kind]; const BCd&e=b.second; if(e.kind==B_SUBIN) c.bc_vals={e.v0,e.v1*G.Tinf}; else if(e.kind==B_ADIA) c.bc_vals={e.v0}; else if(e.kind==B_ISO) c.bc_vals={e.v0,e.v1*G.Tinf}; pc.bcconf.push_back(c); }
		nc.conv_numflux=fluxName[flux]; nc.conv_numflux_jac=fluxName[jflux]; nc.gradientscheme=gradName[grad]; nc.reconstruction=recName[rec]; nc.limiter_param=lim; nc.order2=o2; }
	std::string describe() const { std::string s=gm.desc+sf(" g=%.4g M=%.4g Re=%.4g aoa=%.3g order%d %s/%s %s %s(%.3g)%s",G.g,G.M,G.Re,aoa,o2?2:1,fluxName[flux],fluxName[jflux],gradName[grad],recName[rec],lim,visc?(cvisc?" viscous-const":" viscous-Suth"):""); for(auto&b:bc) s+=sf(" %d:%s",b.first,bcnm[b.second.kind]); return s; }
};
inline BCd rndBC(Rng&r,const Gas&G,int kind) { BCd e; e.kind=kind; e.v0=e.v1=0; e.wv[0]=e.wv[1]=0; e.cart=false; double pinf=1/(G.g*G.M*G.M);
	if(kind==B_SUBIN) { e.v0=pinf*std::pow(1+0.5*(G.g-1)*G.M*G.M,G.g/(G.g-1)); e.v1=1+0.5*(G.g-1)*G.M*G.M; }
	if(kind==B_ADIA) e.v0=r.p(0.4)?0:r.u(-1,1); if(kind==B_ISO) { e.v0=r.p(0.4)?0:r.u(-1,1); e.v1=r.u(0.8,1.3); } return e; }
// which: set of allowed boundary kinds
static bool wideGas=true; // unusual Mach and Reynolds numbers now and then
inline void rndConf(Rng&r,Case&c,std::vector<int> kinds,int viscP,double o2P) {
	c.G=rndGas(r); c.G.M=r.lu(0.1,2.5); c.G.Re=r.lu(1,1e5); if(wideGas) { if(r.p(0.05)) c.G.M=r.p(0.5)?r.lu(2.5,12):r.lu(0.02,0.1); if(r.p(0.06)) c.G.Re=r.lu(1e5,1e9); } c.aoa=r.p(0.2)?0:r.u(-3.1,3.1); c.visc=r.i(0,99)<viscP; c.cvisc=r.p(0.5); c.o2=r.p(o2P);
	c.flux=r.i(0,NFLUX-1); static const std::vector<int> jf={LLF,ROE,HLL,HLLC}; c.jflux=r.pick(jf); c.grad=r.i(0,2); c.rec=r.i(0,4); c.lim= c.rec==RC_WENO? r.lu(1,1e3):r.lu(0.1,10);
	for(int t:meshTags(c.gm)) c.bc[t]=rndBC(r,c.G,r.pick(kinds)); }
inline void setState(Rng&r,Case&c,double amp,int type) { // 0 smooth, 1 rough, 2 uniform
	double pinf=1/(c.G.g*c.G.M*c.G.M),ci=1/c.G.M; double k[6][4]; for(auto&q:k) { q[0]=r.u(-4,4); q[1]=r.u(-4,4); q[2]=r.u(0,6.28); q[3]=r.u(0.3,1); }
	double lo[2]={1e300,1e300},hi[2]={-1e300,-1e300}; for(auto&x:c.gm.p) for(int d=0;d<2;d++) { lo[d]=std::min(lo[d],x[d]); hi[d]=std::max(hi[d],x[d]); }
	double L=std::max(hi[0]-lo[0],hi[1]-lo[1]); c.u.resize(c.gm.el.size());
	for(size_t e=0;e<c.u.size();e++) { double w[4]; for(int i=0;i<4;i++) { double x=(c.geo->cc[e][0]-lo[0])/L,y=(c.geo->cc[e][1]-lo[1])/L; w[i]= type==2?0: type==1? r.u(-1,1) : k[i][3]*std::sin(k[i][0]*x+k[i][1]*y+k[i][2]); w[i]*=amp; }
		toCons(c.G,1+w[0],std::cos(c.aoa)+w[1]*ci,std::sin(c.aoa)+w[2]*ci,pinf*(1+w[3]),c.u[e].data()); if(type==2) for(int i=0;i<4;i++) c.u[e][i]=c.uinf[i]; } }

// ------------------------------------------------------------- reference scheme
struct RGrad { std::vector<std::array<double,2>> g; }; // [cell*nv+k]
struct Ref {
	const GMesh&m; const Geo&G; int ne,nb; std::vector<P2> mid; std::vector<P2> gc; std::vector<int> bidx; std::vector<double> cond;
	Ref(const GMesh&m_,const Geo&g_):m(m_),G(g_) { ne=m.el.size(); nb=0; for(auto&f:G.f) { mid.push_back({0.5*(m.p[f.a][0]+m.p[f.b][0]),0.5*(m.p[f.a][1]+m.p[f.b][1])}); if(f.R<0) { nb++; } }
		gc.resize(nb); bidx.resize(nb); for(size_t k=0;k<G.f.size();k++) if(G.f[k].R<0) { int b=-1-G.f[k].R; bidx[b]=k; gc[b]={2*mid[k][0]-G.cc[G.f[k].L][0],2*mid[k][1]-G.cc[G.f[k].L][1]}; }
		cond.resize(ne,1); for(int c=0;c<ne;c++) { double V[3]={0,0,0}; for(int f:G.cf[c]) { P2 d=dr(f); double w=1/(d[0]*d[0]+d[1]*d[1]); V[0]+=w*d[0]*d[0]; V[1]+=w*d[0]*d[1]; V[2]+=w*d[1]*d[1]; } double t=V[0]+V[2],D=V[0]*V[2]-V[1]*V[1]; double s=std::sqrt(std::max(0.,t*t/4-D)); cond[c]=(t/2+s)/std::max(t/2-s,1e-300); } }
	P2 rc(int f,int side) const { const Geo::F&F=G.f[f]; if(side==0) return G.cc[F.L]; return F.R>=0? G.cc[F.R]:gc[-1-F.R]; }
	P2 dr(int f) const { P2 a=rc(f,0),b=rc(f,1); return {b[0]-a[0],b[1]-a[1]}; }
	// gradients; u[cell*nv+k], ug[b*nv+k]
	std::vector<std::array<double,2>> grad(int scheme,const std::vector<double>&u,const std::vector<double>&ug,int nv) const {
		std::vector<std::array<double,2>> g(ne*nv,std::array<double,2>{{0,0}}); if(scheme==GR_NONE) return g;
		for(int c=0;c<ne;c++) { double V[3]={0,0,0};
			for(int f:G.cf[c]) { const Geo::F&F=G.f[f]; double s=F.L==c?1:-1; int o=F.L==c?F.R:F.L; P2 a=G.cc[c],b= o>=0?G.cc[o]:gc[-1-o];
				if(scheme==GR_GG) { double d1=1/std::hypot(mid[f][0]-a[0],mid[f][1]-a[1]),d2=1/std::hypot(mid[f][0]-b[0],mid[f][1]-b[1]);
					for(int k=0;k<nv;k++) { double uo= o>=0?u[o*nv+k]:ug[(-1-o)*nv+k]; double uf=(u[c*nv+k]*d1+uo*d2)/(d1+d2); g[c*nv+k][0]+=s*uf*F.nx*F.len/G.area[c]; g[c*nv+k][1]+=s*uf*F.ny*F.len/G.area[c]; } }
				else { double dx=b[0]-a[0],dy=b[1]-a[1],w=1/(dx*dx+dy*dy); V[0]+=w*dx*dx; V[1]+=w*dx*dy; V[2]+=w*dy*dy; for(int k=0;k<nv;k++) { double du=(o>=0?u[o*nv+k]:ug[(-1-o)*nv+k])-u[c*nv+k]; g[c*nv+k][0]+=w*dx*du; g[c*nv+k][1]+=w*dy*du; } } }
			if(scheme==GR_LSQ) { double D=V[0]*V[2]-V[1]*V[1]; for(int k=0;k<nv;k++) { double x=g[c*nv+k][0],y=g[c*nv+k][1]; g[c*nv+k][0]=(V[2]*x-V[1]*y)/D; g[c*nv+k][1]=(V[0]*y-V[1]*x)/D; } } }
		return g; }
	// face values
	void recon(int rec,double par,const std::vector<double>&u,const std::vector<double>&ug,const std::vector<std::array<double,2>>&g,int nv,std::vector<double>&ul,std::vector<double>&ur) const {
		int nf=G.f.size(); ul.assign(nf*nv,0); ur.assign(nf*nv,0);
		auto nbv=[&](int o,int k) { return o>=0?u[o*nv+k]:ug[(-1-o)*nv+k]; };
		if(rec==RC_VANALBADA) { const double eps=1e-8,kk=1./3; for(int f=0;f<nf;f++) { const Geo::F&F=G.f[f]; P2 d=dr(f); for(int k=0;k<nv;k++) { double D=nbv(F.R,k)-u[F.L*nv+k];
				auto rc1=[&](int c,double sg) { double Dm=2*(g[c*nv+k][0]*d[0]+g[c*nv+k][1]*d[1])-D; double ph=(2*Dm*D+eps)/(Dm*Dm+D*D+eps); if(ph<0) ph=0; return u[c*nv+k]+sg*ph/4*((1-kk*ph)*Dm+(1+kk*ph)*D); };
				ul[f*nv+k]=rc1(F.L,1); if(F.R>=0) ur[f*nv+k]=rc1(F.R,-1); } } return; }
		for(int c=0;c<ne;c++) { double h=0; int n=m.el[c].size(); for(int k=0;k<n;k++) h=std::max(h,std::hypot(m.p[m.el[c][k]][0]-m.p[m.el[c][(k+1)%n]][0],m.p[m.el[c][k]][1]-m.p[m.el[c][(k+1)%n]][1]));
			for(int k=0;k<nv;k++) { double gx=g[c*nv+k][0],gy=g[c*nv+k][1],phi=1;
				if(rec==RC_WENO) { double w=par/std::pow(gx*gx+gy*gy+1e-5,4),W=w,sx=w*gx,sy=w*gy; for(int f:G.cf[c]) { const Geo::F&F=G.f[f]; int o=F.L==c?F.R:F.L; if(o<0) continue; double ox=g[o*nv+k][0],oy=g[o*nv+k][1]; double wo=1/std::pow(ox*ox+oy*oy+1e-5,4); W+=wo; sx+=wo*ox; sy+=wo*oy; } gx=sx/W; gy=sy/W; }
				else if(rec==RC_BJ||rec==RC_VENKAT) { double mn=0,mx=0; for(int f:G.cf[c]) { const Geo::F&F=G.f[f]; double d=nbv(F.L==c?F.R:F.L,k)-u[c*nv+k]; mn=std::min(mn,d); mx=std::max(mx,d); }
					for(int f:G.cf[c]) { double d=gx*(mid[f][0]-G.cc[c][0])+gy*(mid[f][1]-G.cc[c][1]); double q=1; if(rec==RC_BJ) { if(d>0) q=std::min(1.,mx/d); else if(d<0) q=std::min(1.,mn/d); } else { double e2=std::pow(par*h,3),dp=d<0?mn:mx; q=(dp*dp+2*dp*d+e2)/(dp*dp+dp*d+2*d*d+e2); } if(q<phi) phi=q; } }
				for(int f:G.cf[c]) { double v=u[c*nv+k]+phi*(gx*(mid[f][0]-G.cc[c][0])+gy*(mid[f][1]-G.cc[c][1])); (G.f[f].L==c?ul:ur)[f*nv+k]=v; } } } }
};
struct RefRes {
	U4 r; std::vector<double> dt; U4 scale; std::vector<char> skip; bool bad=false; U4 facef; // r: sum of outward fluxes
	std::vector<std::array<double,2>> gprim;
};
// residual (sum of outward face fluxes) of the reference scheme
inline RefRes refResidual(const Case&c,const U4&u) {
	const Geo&G=*c.geo; Ref R(c.gm,G); int ne=R.ne,nf=G.f.size(); RefRes o; o.r.assign(ne,{{0,0,0,0}}); o.scale.assign(ne,{{0,0,0,0}}); o.skip.assign(ne,0); o.dt.assign(ne,0); o.facef.assign(nf,{{0,0,0,0}});
	std::vector<double> ub(R.nb*4),ul(nf*4),ur(nf*4); std::vector<double> q; std::vector<std::array<double,2>> g;
	std::vector<char> fskip(nf,0);
	auto ghost=[&](int f,const double*ui,double*go) { const Geo::F&F=G.f[f]; double n[2]={F.nx,F.ny},mg; rGhost(c.bc.at(F.tag),c.G,ui,n,go,&mg); if(mg<1e-9) fskip[f]=1; };
	for(int b=0;b<R.nb;b++) ghost(R.bidx[b],u[G.f[R.bidx[b]].L].data(),&ub[4*b]);
	auto prim=[&](const double*x,double*p) { p[0]=x[0]; p[1]=x[1]/x[0]; p[2]=x[2]/x[0]; p[3]=rP(c.G,x); };
	if(c.o2) { std::vector<double> up(ne*4),ugp(R.nb*4); for(int e=0;e<ne;e++) prim(u[e].data(),&up[4*e]); for(int b=0;b<R.nb;b++) prim(&ub[4*b],&ugp[4*b]);
		g=R.grad(c.grad,up,ugp,4); o.gprim=g; R.recon(c.rec,c.lim,up,ugp,g,4,ul,ur);
		for(int f=0;f<nf;f++) { if(!(ul[4*f]>0.02&&ul[4*f+3]>0.02/(c.G.g*c.G.M*c.G.M))) o.bad=true; double p[4]; std::memcpy(p,&ul[4*f],32); toCons(c.G,p[0],p[1],p[2],p[3],&ul[4*f]); if(G.f[f].R>=0) { if(!(ur[4*f]>0.02&&ur[4*f+3]>0.02/(c.G.g*c.G.M*c.G.M))) o.bad=true; std::memcpy(p,&ur[4*f],32); toCons(c.G,p[0],p[1],p[2],p[3],&ur[4*f]); } }
	} else for(int f=0;f<nf;f++) for(int i=0;i<4;i++) { ul[4*f+i]=u[G.f[f].L][i]; if(G.f[f].R>=0) ur[4*f+i]=u[G.f[f].R][i]; }
	if(o.bad) return o;
	std::vector<double> W(ne,0);
	for(int f=0;f<nf;f++) { const Geo::F&F=G.f[f]; double n[2]={F.nx,F.ny}; if(F.R<0) ghost(f,&ul[4*f],&ur[4*f]); const double*a=&ul[4*f],*b=&ur[4*f]; double fl[4]; if(!(b[0]>0)||!(rP(c.G,b)>0)) { o.bad=true; return o; }
		double mg; rFlux(c.flux,c.G,a,b,n,fl,&mg); double va=std::hypot(a[1],a[2])/a[0]+rC(c.G,a),vb=std::hypot(b[1],b[2])/b[0]+rC(c.G,b),ve=std::max(va,vb); double sc[4]={std::max(a[0],b[0])*ve,0,0,0}; sc[1]=sc[2]=sc[0]*ve; sc[3]=sc[1]*ve;
		if(c.visc) { const double*uL=u[F.L].data(),*uR= F.R>=0?u[F.R].data(): c.o2? &ub[4*(-1-F.R)] : b; double tl[4]={uL[0],uL[1]/uL[0],uL[2]/uL[0],rT(c.G,uL)},tr[4]={uR[0],uR[1]/uR[0],uR[2]/uR[0],rT(c.G,uR)}; P2 d=R.dr(f); double dist=std::hypot(d[0],d[1]); d[0]/=dist; d[1]/=dist; double gr[2][4];
			for(int k=0;k<4;k++) { double av[2]={0,0}; if(c.o2) for(int side=0;side<2;side++) { int e=side&&F.R>=0?F.R:F.L; const double*us=side?uR:uL; for(int q=0;q<2;q++) { double x=g[4*e+k][q]; if(k==3) x=c.G.g*c.G.M*c.G.M*(g[4*e+3][q]*us[0]-rP(c.G,us)*g[4*e][q])/(us[0]*us[0]); av[q]+=0.5*x; } }
				double dn=av[0]*d[0]+av[1]*d[1],cr=(tr[k]-tl[k])/dist; for(int q=0;q<2;q++) gr[q][k]=av[q]+(cr-dn)*d[q]; sc[k]+=0; }
			if(!(rT(c.G,a)>0&&rT(c.G,b)>0)) { o.bad=true; return o; }
			double fv[4]; rVisc(c.G,n,gr,a,b,c.cvisc,fv); double mu=c.cvisc?1/c.G.Re:0.5*(rMu(c.G,rT(c.G,a))+rMu(c.G,rT(c.G,b))),kk=mu/(c.G.M*c.G.M*(c.G.g-1)*c.G.Pr); double gs=0; for(auto&x:gr) for(int k=1;k<4;k++) gs+=std::fabs(x[k]); gs+=(std::fabs(tl[1])+std::fabs(tl[2])+std::fabs(tl[3])+std::fabs(tr[1])+std::fabs(tr[2])+std::fabs(tr[3]))/dist; for(int i=0;i<4;i++) fl[i]+=fv[i]; sc[1]+=mu*gs; sc[2]+=mu*gs; sc[3]+=mu*gs*ve+kk*gs; }
		for(int i=0;i<4;i++) { fl[i]*=F.len; sc[i]*=F.len; o.facef[f][i]=fl[i]; o.r[F.L][i]+=fl[i]; o.scale[F.L][i]+=sc[i]; if(F.R>=0) { o.r[F.R][i]-=fl[i]; o.scale[F.R][i]+=sc[i]; } }
		for(int side=0;side<2;side++) { int e=side?F.R:F.L; if(e<0) continue; const double*s=side?b:a; double w=(std::fabs((s[1]*n[0]+s[2]*n[1])/s[0])+rC(c.G,s))*F.len; if(c.visc) { double mu=c.cvisc?1/c.G.Re:rMu(c.G,rT(c.G,s)); w+=std::max(4./3,c.G.g)/s[0]*mu/c.G.Pr*F.len*F.len/G.area[e]; } W[e]+=w; }
		if(fskip[f]) { if(c.o2) { o.bad=true; return o; } o.skip[F.L]=1; if(F.R>=0) o.skip[F.R]=1; } }
	for(int e=0;e<ne;e++) o.dt[e]=G.area[e]/W[e];
	return o; }

// ------------------------------------------------------------- library side
inline int mpiRank() { int r; MPI_Comm_rank(MPI_COMM_WORLD,&r); return r; }
inline int mpiSize() { int r; MPI_Comm_size(MPI_COMM_WORLD,&r); return r; }
struct LMesh { // mesh as the library builds it, with the map from local cells to the generator's cells
	std::unique_ptr<UMesh<freal,NDIM>> m; std::vector<int> cell; std::vector<int> face; // face: library face -> Geo face
	std::map<std::pair<double,double>,int> pid;
	static std::vector<std::pair<double,double>> ckey(const UMesh<freal,NDIM>&m,int e) { std::vector<std::pair<double,double>> k; for(int j=0;j<m.gnnode(e);j++) k.push_back({m.gcoords(m.ginpoel(e,j),0),m.gcoords(m.ginpoel(e,j),1)}); std::sort(k.begin(),k.end()); return k; }
	bool build(const GMesh&gm,const Geo&G,const std::string&path) { m.reset(new UMesh<freal,NDIM>(constructMesh(path))); return mapCells(gm,G); }
	bool mapCells(const GMesh&gm,const Geo&G) {
		std::map<std::vector<std::pair<double,double>>,int> km; for(size_t e=0;e<gm.el.size();e++) { std::vector<std::pair<double,double>> k; for(int v:gm.el[e]) k.push_back({gm.p[v][0],gm.p[v][1]}); std::sort(k.begin(),k.end()); km[k]=e; }
		cell.assign(m->gnelem(),-1); bool ok=true; for(int e=0;e<m->gnelem();e++) { auto it=km.find(ckey(*m,e)); if(it==km.end()) { ok=false; rep.viol("mesh-cell-unknown","local cell %d is not a cell of the mesh file",e); } else cell[e]=it->second; }
		std::map<std::vector<std::pair<double,double>>,int> fm; for(size_t f=0;f<G.f.size();f++) { std::vector<std::pair<double,double>> k={{gm.p[G.f[f].a][0],gm.p[G.f[f].a][1]},{gm.p[G.f[f].b][0],gm.p[G.f[f].b][1]}}; std::sort(k.begin(),k.end()); fm[k]=f; }
		face.assign(m->gnaface(),-1); for(int f=0;f<m->gnaface();f++) { std::vector<std::pair<double,double>> k; for(int j=0;j<2;j++) k.push_back({m->gcoords(m->gintfac(f,2+j),0),m->gcoords(m->gintfac(f,2+j),1)}); std::sort(k.begin(),k.end()); auto it=fm.find(k); if(it==fm.end()) { ok=false; rep.viol("mesh-face-unknown","local face %d is not a face of the mesh file",f); } else face[f]=it->second; }
		return ok; }
};
inline std::string meshFile(const GMesh&gm) { // written by rank 0, in a format and with a number of tags that depend on the mesh
	uint64_t h=mix((uint64_t)gm.el.size()*1000003+gm.p.size(),(uint64_t)std::llround(std::fmod(std::fabs(gm.p[gm.p.size()/2][0]+gm.p.back()[1]),1.0)*1e12)); bool su2=h%9==0; int ntb=2,nte=2; if(h%4==1) { ntb=1+(h>>8)%4; nte=1+(h>>16)%4; }
	std::string f=scratch()+(su2?"/m.su2":"/m.msh"); MPI_Barrier(MPI_COMM_WORLD); if(mpiRank()==0) { mkdir(scratch().c_str(),0777); if(su2) writeSu2(gm,f); else writeMsh(gm,f,ntb,nte); } MPI_Barrier(MPI_COMM_WORLD); return f; }
struct Lib {
	LMesh lm; const FlowFV_base<freal>*s=nullptr; Vec u=NULL,r=NULL,dt=NULL; bool ok=false;
	void mesh(const Case&c) { std::string f=meshFile(c.gm); ok=lm.build(c.gm,*c.geo,f); }
	void disc(const Case&c) { delete s; s=nullptr; s=create_const_flowSpatialDiscretization<freal>(lm.m.get(),c.pc,c.nc); if(!u) { createGhostedSystemVector(lm.m.get(),4,&u); VecDuplicate(u,&r); createSystemVector(lm.m.get(),1,&dt); } }
	void set(const U4&U) { PetscScalar*a; VecGetArray(u,&a); for(size_t e=0;e<lm.cell.size();e++) for(int i=0;i<4;i++) a[4*e+i]=U[lm.cell[e]][i]; VecRestoreArray(u,&a); VecGhostUpdateBegin(u,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(u,INSERT_VALUES,SCATTER_FORWARD); }
	std::vector<double> get(Vec v) const { PetscInt n; VecGetLocalSize(v,&n); const PetscScalar*a; VecGetArrayRead(v,&a); std::vector<double> x(a,a+n); VecRestoreArrayRead(v,&a); return x; }
	void put(Vec v,const std::vector<double>&x) const { PetscScalar*a; VecGetArray(v,&a); std::copy(x.begin(),x.end(),a); VecRestoreArray(v,&a); }
	int residual(bool gdt) { VecSet(r,0); VecGhostUpdateBegin(r,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(r,INSERT_VALUES,SCATTER_FORWARD); return s->compute_residual(u,r,gdt,gdt?dt:NULL); }
	~Lib() { delete s; if(u) { VecDestroy(&u); VecDestroy(&r); VecDestroy(&dt); } }
};
struct Petsc { Petsc(int c,char**v) { rep.init(); PetscInitialize(&c,&v,NULL,NULL); PetscPushErrorHandler(PetscReturnErrorHandler,NULL); rep.rank=mpiRank(); rep.nproc=mpiSize(); collLog().on=getenv("VF_PMPI")!=nullptr; reqLog().sync=envl("VF_PMPI",0)==2; } ~Petsc() { rep.finish(); PetscFinalize(); } };
template<class F> inline void runCases(F fn) { long seed=envl("VF_SEED",1),n=envl("VF_CASES",50),from=envl("VF_FROM",0); for(long k=from;k<from+n;k++) { Rng r(mix(seed,k)); rep.at(sf("%ld/%ld",seed,k)); try { fn(r,k); } catch(const std::exception&e) { rep.viol("exception","%s",e.what()); if(mpiSize()>1) { rep.finish(); MPI_Abort(MPI_COMM_WORLD,3); } } catch(const char*e) { rep.viol("exception","%s",e); if(mpiSize()>1) { rep.finish(); MPI_Abort(MPI_COMM_WORLD,3); } } collCheck(rep); } }
}
#endif
