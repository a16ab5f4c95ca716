P='C05'
FILES=[('src/spatial/anumericalflux.cpp','''		MR = Mnj;
		// pR = pj;
		for(int k = 0; k < NVARS; k++) {
			dMR[k] = dmnj[k];
			dpR[k] = dpj[k];
		}''','''		MR = Mnj;
		// pR = pj;
		for(int k = 0; k < NVARS; k++)
			dMR[k] = dmnj[k];''')]
NEEDS='the AUSM flux Jacobian where the right state moves supersonically against the normal'
BREAKS='the pressure part of the derivative with respect to the right state is missing'
DEMO=r'''
#include "demo.hpp"
#include "spatial/anumericalflux.hpp"
int main(int argc,char**argv) { Env env(argc,argv); IdealGasPhysics<freal> ph(1.4,0.5,290,1000,0.72); const InviscidFlux<freal>*F=create_const_inviscidflux<freal>("AUSM",&ph); Rnd r(3); int sup=0;
	for(int k=0;k<2000;k++) { double a=r(0,6.283),n[2]={std::cos(a),std::sin(a)},ul[4],ur[4]; for(double*u: {ul,ur}) { u[0]=r(0.5,2); double p=r(0.5,2),vx=r(-4,4),vy=r(-4,4); u[1]=u[0]*vx; u[2]=u[0]*vy; u[3]=p/0.4+0.5*u[0]*(vx*vx+vy*vy); } double sw[2]; int q=0; bool near=false; for(double*u: {ul,ur}) { double vn=(u[1]*n[0]+u[2]*n[1])/u[0],p=0.4*(u[3]-0.5*(u[1]*u[1]+u[2]*u[2])/u[0]),M=vn/std::sqrt(1.4*p/u[0]); if(std::fabs(std::fabs(M)-1)<1e-2) near=true; sw[q++]=M; } double ml=std::fabs(sw[0])<=1?0.25*(sw[0]+1)*(sw[0]+1):std::max(sw[0],0.0),mr=std::fabs(sw[1])<=1?-0.25*(sw[1]-1)*(sw[1]-1):std::min(sw[1],0.0); if(near||std::fabs(ml+mr)<1e-2) continue; if(sw[1]<-1.01) sup++;
		double dl[16],dr[16]; for(int i=0;i<16;i++) dl[i]=dr[i]=0; F->get_jacobian(ul,ur,n,dl,dr); for(int j=0;j<4;j++) { double h=1e-6*std::max(1.0,std::fabs(ur[j])),fp[4],fm[4],x=ur[j]; ur[j]=x+h; F->get_flux(ul,ur,n,fp); ur[j]=x-h; F->get_flux(ul,ur,n,fm); ur[j]=x; for(int i=0;i<4;i++) { double d=(fp[i]-fm[i])/(2*h); CHECK(std::fabs(d-dr[4*i+j])<1e-4*(1+std::fabs(d)),"case %d, entry %d %d: %g, difference quotient %g",k,i,j,dr[4*i+j],d); } } }
	CHECK(sup>100,"no supersonic states"); delete F; return 0; }
'''
