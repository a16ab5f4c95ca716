P='C07'
FILES=[('src/spatial/abc.cpp','	const scalar gtemp = 2.0*walltemperature - phy.getTemperature(ins[0],p);','	const scalar gtemp = std::max(2.0*walltemperature - phy.getTemperature(ins[0],p), 0.5*walltemperature);')]
NEEDS='an isothermal wall much colder than the gas next to it'
BREAKS='the temperature on the wall, mean of the two sides, is not the prescribed one'
DEMO=r'''
#include "demo.hpp"
#include "spatial/abc.hpp"
int main(int argc,char**argv) { Env env(argc,argv); IdealGasPhysics<freal> ph(1.4,0.5,290,1000,0.72); double aoa=0.1; auto ui=ph.compute_freestream_state(aoa); Rnd r(3);
	for(int k=0;k<400;k++) { double tw=r(0.6,1.5); auto m=create_const_flowBCs<freal>({bc(5,ISOTHERMAL_WALL_BC,{r(-1,1),290*tw})},ph,ui); double rho=r(0.5,2),T=tw*r(0.4,1.9),a=r(0,6.28),n[2]={std::cos(a),std::sin(a)},u[4],g[4]; u[0]=rho; u[1]=rho*r(-1,1); u[2]=rho*r(-1,1); u[3]=ph.getEnergyFromTemperature(T,rho,(u[1]*u[1]+u[2]*u[2])/(rho*rho)); m.at(5)->computeGhostState(u,n,g); double tg=ph.getTemperatureFromConserved(g),ti=ph.getTemperatureFromConserved(u); CHECK(std::fabs(0.5*(tg+ti)-tw)<1e-8,"wall at %g, gas at %g: the mean of the two sides is %g",tw,ti,0.5*(tg+ti)); }
	return 0; }
'''
