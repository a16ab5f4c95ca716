// Reference Jacobian of the first-order residual with the Jacobian flux, applied to a vector.
#ifndef VF_JAC_H
#define VF_JAC_H
#include "fv.hpp"
namespace vf {
struct RefJv { U4 y,scale; std::vector<char> skip; bool bad=false,mu=false,roe=false; };
// mu,roe: derivative variants of the recorded defects (known-findings.txt C05/C09/C10); relevant only when the flags say so
inline RefJv refJv(const Case&c,const U4&u,const U4&v,bool mu=false,bool roe=false) {
	typedef Dual<8> D; const Geo&G=*c.geo; Ref R(c.gm,G); int ne=R.ne; RefJv o; o.y.assign(ne,{{0,0,0,0}}); o.scale=o.y; o.skip.assign(ne,0); AsFound keep=asFound; asFound.mu=mu; asFound.roe=roe;
	o.mu=c.visc&&!c.cvisc; bool exact=c.jflux!=LLF&&c.jflux!=HLL;
	for(size_t f=0;f<G.f.size();f++) { const Geo::F&F=G.f[f]; double n[2]={F.nx,F.ny}; D a[4],b[4],fl[4]; for(int i=0;i<4;i++) a[i]=D::var(u[F.L][i],i); double mg=1e300,mb=1e300;
		if(F.R>=0) for(int i=0;i<4;i++) b[i]=D::var(u[F.R][i],4+i); else rGhost(c.bc.at(F.tag),c.G,a,n,b,&mb);
		if(!(b[0].v>0)||!(rP(c.G,b).v>0)) { o.bad=true; break; }
		bool mirror=F.R<0&&(c.bc.at(F.tag).kind==B_SLIP||c.bc.at(F.tag).kind==B_ADIA||c.bc.at(F.tag).kind==B_ISO||c.bc.at(F.tag).kind==B_EXTRAP);
		D dum[4]; rFlux(c.jflux,c.G,a,b,n,dum,&mg); if(exact) for(int i=0;i<4;i++) fl[i]=dum[i]; else rFluxFrozen(c.jflux,c.G,a,b,n,fl); 
		if(c.jflux==ROE) { double ul[4],ur[4]; for(int i=0;i<4;i++) { ul[i]=a[i].v; ur[i]=b[i].v; } double sl=std::sqrt(ul[0]),sr=std::sqrt(ur[0]),w=sl+sr,vx=(ul[1]/sl+ur[1]/sr)/w,vy=(ul[2]/sl+ur[2]/sr)/w,H=(sl*(ul[3]+rP(c.G,ul))/ul[0]+sr*(ur[3]+rP(c.G,ur))/ur[0])/w,cc=std::sqrt((c.G.g-1)*(H-0.5*(vx*vx+vy*vy))),vn=vx*n[0]+vy*n[1]; for(double l:{vn-cc,vn,vn+cc}) if(std::fabs(l)<1.0001e-4*cc) o.roe=true; }
		bool sw=mb<1e-9||(mg<1e-9&&!mirror); (void)mirror;
		if(c.visc) { P2 d=R.dr(f); double dist=std::hypot(d[0],d[1]); d[0]/=dist; d[1]/=dist; D tl[4]={a[0],a[1]/a[0],a[2]/a[0],rT(c.G,a)},tr[4]={b[0],b[1]/b[0],b[2]/b[0],rT(c.G,b)}; D gr[2][4],fv[4]; for(int k=0;k<4;k++) for(int q=0;q<2;q++) gr[q][k]=(tr[k]-tl[k])*(d[q]/dist); if(!(tr[3].v>0)) { o.bad=true; break; } rVisc(c.G,n,gr,a,b,c.cvisc,fv); for(int i=0;i<4;i++) { // scale of the parts, not of their difference
				fl[i]=fl[i]+fv[i]; } }
		double V=0,N0=0; for(int q=0;q<2;q++) { const D*w=q?b:a; double z[4]; for(int i=0;i<4;i++) z[i]=w[i].v; V=std::max(V,std::hypot(z[1],z[2])/z[0]+rC(c.G,z)); } for(int q=0;q<2;q++) { int e=q?F.R:F.L; if(e<0) continue; N0+=std::fabs(v[e][0])+(std::fabs(v[e][1])+std::fabs(v[e][2]))/V+std::fabs(v[e][3])/(V*V); }
		const double VS[4]={1,V,V,V*V}; // rounding floor: cancelling contributions at mirrored states
		for(int i=0;i<4;i++) { double s=0,sc=1e-6*V*N0*VS[i]; for(int k=0;k<4;k++) { s+=fl[i].d[k]*v[F.L][k]; sc+=std::fabs(fl[i].d[k]*v[F.L][k]); if(F.R>=0) { s+=fl[i].d[4+k]*v[F.R][k]; sc+=std::fabs(fl[i].d[4+k]*v[F.R][k]); } } s*=F.len; sc*=F.len; o.y[F.L][i]+=s; o.scale[F.L][i]+=sc; if(F.R>=0) { o.y[F.R][i]-=s; o.scale[F.R][i]+=sc; } }
		if(sw) { o.skip[F.L]=1; if(F.R>=0) o.skip[F.R]=1; } }
	// contributions cancel in ill-scaled rows: use a common scale per cell in velocity units
	for(int e=0;e<ne;e++) { double ci=1+1/c.G.M; double s=std::max({o.scale[e][0]*ci*ci,o.scale[e][1]*ci,o.scale[e][2]*ci,o.scale[e][3]}); o.scale[e][0]=std::max(o.scale[e][0],1e-3*s/(ci*ci)); for(int i=1;i<3;i++) o.scale[e][i]=std::max(o.scale[e][i],1e-3*s/ci); o.scale[e][3]=std::max(o.scale[e][3],1e-3*s); }
	asFound=keep; return o; }
// compares got against the accepted variants; returns the worst accepted relative error, or reports
inline double checkJv(const Case&c,const U4&u,const U4&v,const std::vector<int>&cell,const std::vector<double>&got,const char*key,double tol,std::vector<double>*pt=nullptr,const char*what="") {
	RefJv A=refJv(c,u,v); if(A.bad) return -1; std::vector<RefJv> var; var.push_back(A); if(A.mu) var.push_back(refJv(c,u,v,true,false)); if(A.roe) { var.push_back(refJv(c,u,v,false,true)); if(A.mu) var.push_back(refJv(c,u,v,true,true)); }
	double worst=0; for(size_t e=0;e<cell.size();e++) { int k=cell[e]; if(A.skip[k]) { rep.count("rows at a switch (skipped)"); continue; } double best=1e300; size_t bi=0; for(size_t q=0;q<var.size();q++) { double er=0; for(int i=0;i<4;i++) { double ex=var[q].y[k][i],sc=A.scale[k][i]; if(pt) { ex+=(*pt)[4*e+i]; sc+=std::fabs((*pt)[4*e+i]); } double x=std::fabs(got[4*e+i]-ex)/(sc+1e-300); if(!(x<=er)) er=x; } if(!(er>=best)) { best=er; bi=q; } }
		if(bi>0&&best<=tol) rep.count("rows agreeing with the recorded flux-Jacobian defect only"); 
		if(!(best<=tol)) { int w=0; double we=-1; for(int i=0;i<4;i++) { double x=std::fabs(got[4*e+i]-A.y[k][i]-(pt?(*pt)[4*e+i]:0))/A.scale[k][i]; if(!(x<=we)) { we=x; w=i; } } rep.viol(key,"%s cell %d variable %d: got %.15g expected %.15g (scale %.3g, error %.3g)",what,k,w,got[4*e+w],A.y[k][w]+(pt?(*pt)[4*e+w]:0),A.scale[k][w],best); return best; } worst=std::max(worst,best); rep.count("rows compared"); }
	return worst; }
inline U4 rndDir(Rng&r,const Case&c) { U4 v(c.gm.el.size()); double ci=1/c.G.M; for(auto&q:v) { q[0]=r.u(-1,1); q[1]=r.u(-1,1)*(1+ci); q[2]=r.u(-1,1)*(1+ci); q[3]=r.u(-1,1)*(1+ci)*(1+ci); } if(r.p(0.2)) { int e=r.i(0,v.size()-1),i=r.i(0,3); for(size_t k=0;k<v.size();k++) for(int j=0;j<4;j++) if((int)k!=e||j!=i) v[k][j]=0; } return v; }
}
#endif
