P='C04'
FILES=[('src/spatial/anumericalflux.cpp','	if(csj > -vnj)\n		corrj = csj;','	if(csj > vnj)\n		corrj = csj;')]
NEEDS='the AUSM+ flux and a supersonic normal velocity of the right state'
BREAKS='the interface speed of sound is wrong, so that the flux is not symmetric under exchange of the two sides'
DEMO=r'''
#include "demo.hpp"
#include "spatial/anumericalflux.hpp"
int main(int argc,char**argv) { Env env(argc,argv); IdealGasPhysics<freal> ph(1.4,0.5,290,1000,0.72); const InviscidFlux<freal>*Fp=create_const_inviscidflux<freal>("AUSMPLUS",&ph); const InviscidFlux<freal>&F=*Fp; Rnd r(3); int sup=0;
	for(int k=0;k<4000;k++) { double a=r(0,6.283),n[2]={std::cos(a),std::sin(a)},m[2]={-n[0],-n[1]},ul[4],ur[4],f[4],g[4]; for(double*u: {ul,ur}) { u[0]=r(0.5,2); double p=r(0.5,2),vx=r(-5,5),vy=r(-5,5); u[1]=u[0]*vx; u[2]=u[0]*vy; u[3]=p/0.4+0.5*u[0]*(vx*vx+vy*vy); } F.get_flux(ul,ur,n,f); F.get_flux(ur,ul,m,g); for(int i=0;i<4;i++) CHECK(std::fabs(f[i]+g[i])<1e-9*(1+std::fabs(f[i])),"case %d component %d: %g from one side, %g from the other",k,i,f[i],-g[i]); if(std::fabs(ur[1]*n[0]+ur[2]*n[1])/ur[0]>2) sup++; }
	CHECK(sup>100,"no supersonic states"); delete Fp; return 0; }
'''
