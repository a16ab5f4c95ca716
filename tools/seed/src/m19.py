P='C37'
FILES=[('src/ode/aodesolver.cpp','				dtmin = *std::min_element(dtm, dtm+m->gnelem());','				dtmin = *std::min_element(dtm+(step>0), dtm+m->gnelem());')]
NEEDS='the cell numbered zero being the one that limits the time step, after the first step'
BREAKS='the later time steps exceed the smallest local time step times the CFL number'
DEMO=r'''
#include "demo.hpp"
int main(int argc,char**argv) { Env env(argc,argv); std::string W=argv[1]; for(int big=0;big<2;big++) { Mesh g=load(rect(5,5,false,[&](double x,double y) { return big?std::array<double,2>{{x,y}}:std::array<double,2>{{x*x,y*y}}; }),W);
	FlowPhysicsConfig pc=phys(0.4,0.05); pc.bcconf={bc(1,SLIP_WALL_BC,{}),bc(2,FARFIELD_BC,{}),bc(3,FARFIELD_BC,{}),bc(4,FARFIELD_BC,{})}; FlowNumericsConfig nc=nume(); const FlowFV_base<freal>*s=create_const_flowSpatialDiscretization<freal>(&g,pc,nc); int ne=g.gnelem(); Rnd r(4);
	Vec u,v,q,dt; createGhostedSystemVector(&g,4,&u); VecDuplicate(u,&v); createSystemVector(&g,4,&q); createSystemVector(&g,1,&dt); PetscScalar*a; VecGetArray(u,&a); for(int e=0;e<ne;e++) { a[4*e]=1+r(-.02,.02); a[4*e+1]=0.9; a[4*e+2]=r(-.02,.02); a[4*e+3]=12+r(-.1,.1); } VecRestoreArray(u,&a); VecCopy(u,v); double cfl=0.4,T=0,t=0; int n=0;
	auto step=[&]() { VecSet(q,0); s->compute_residual(v,q,true,dt); const PetscScalar*d,*z; PetscScalar*w; VecGetArrayRead(dt,&d); double m=*std::min_element(d,d+ne); VecRestoreArrayRead(dt,&d); VecGetArrayRead(q,&z); VecGetArray(v,&w); for(int e=0;e<ne;e++) for(int i=0;i<4;i++) w[4*e+i]+=cfl*m/g.garea(e)*z[4*e+i]; VecRestoreArrayRead(q,&z); VecRestoreArray(v,&w); t+=cfl*m; n++; return cfl*m; };
	double d0=step(); T=5.5*d0; while(t<=T) step(); { std::ofstream o(W+"/log"); } TVDRKSolver<4> sol(s,u,1,W+"/log",cfl); CHECK(sol.solve(T)==0,"the solver fails"); VecAXPY(v,-1,u); double e; VecNorm(v,NORM_INFINITY,&e); CHECK(e<1e-9,"after %d steps the state differs by %g from the one of the scheme",n,e); VecDestroy(&u); VecDestroy(&v); VecDestroy(&q); VecDestroy(&dt); delete s; }
	return 0; }
'''
