// Surface coefficients computed from the generator's data.
#ifndef VF_SURF_H
#define VF_SURF_H
#include "fv.hpp"
namespace vf {
struct SurfRef { std::map<int,std::array<double,4>> row; double CL=0,CDp=0,CDf=0,scale=0,fscale=0,pscale=0,fmax=0; };
// gx, gy: gradients of the conserved variables in the generator's cells
inline SurfRef surfRef(const Case&c,const U4&gx,const U4&gy,int tag) { SurfRef R; double len=0,pin=1/(c.G.g*c.G.M*c.G.M),w[2]={std::cos(c.aoa),std::sin(c.aoa)};
	for(size_t f=0;f<c.geo->f.size();f++) { const Geo::F&F=c.geo->f[f]; if(F.R>=0||F.tag!=tag) continue; const double*U=c.u[F.L].data(); double cp=2*(rP(c.G,U)-pin),du[2][2]; for(int i=0;i<2;i++) for(int j=0;j<2;j++) { double g=j?gy[F.L][1+i]:gx[F.L][1+i],g0=j?gy[F.L][0]:gx[F.L][0]; du[i][j]=(g-U[1+i]/U[0]*g0)/U[0]; }
		double mu=!c.visc?0:c.cvisc?1/c.G.Re:rMu(c.G,rT(c.G,U)),n[2]={F.nx,F.ny},t[2]={F.ny,-F.nx},tr[2]; for(int i=0;i<2;i++) tr[i]=mu*((du[i][0]+du[0][i])*n[0]+(du[i][1]+du[1][i])*n[1]); double cf=2*(tr[0]*t[0]+tr[1]*t[1]),as=0; for(auto&q:du) for(double x:q) as+=2*std::fabs(x); as+=1e-2*(std::hypot(U[1],U[2])/U[0]+rC(c.G,U))/std::sqrt(c.geo->area[F.L]);   /* gradients are known to rounding of the state only */
		R.fmax=std::max(R.fmax,mu*as); R.pscale=std::max(R.pscale,1+2*pin+10*std::fabs(U[3])); R.row[f]={{0.5*(c.gm.p[F.a][0]+c.gm.p[F.b][0]),0.5*(c.gm.p[F.a][1]+c.gm.p[F.b][1]),cp,cf}}; R.CL+=cp*(-n[0]*w[1]+n[1]*w[0])*F.len; R.CDp+=cp*(n[0]*w[0]+n[1]*w[1])*F.len; R.CDf+=cf*(t[0]*w[0]+t[1]*w[1])*F.len; len+=F.len; R.scale+=(std::fabs(cp)+2*(pin+std::fabs(U[3])))*F.len; R.fscale+=mu*as*F.len; }
	R.CL/=len; R.CDp/=len; R.CDf/=len; R.scale/=len; R.fscale/=len; return R; }
}
#endif
