P='C24'
FILES=[('src/linalg/alinalg.cpp','	const freal pertmag = eps/xnorm;','	const freal pertmag = eps/std::max<freal>(xnorm, 1e-5);')]
NEEDS='a direction of norm much smaller than 1e-5, as the late steps of a linear solver produce'
BREAKS='the perturbation is too small for such directions and the product is dominated by rounding'
DEMO=r'''
#include "demo.hpp"
int main(int argc,char**argv) { Env env(argc,argv); std::string W=argv[1]; Mesh g=load(rect(6,6,true),W);
	FlowPhysicsConfig pc=phys(0.4,0.05); pc.bcconf={bc(1,SLIP_WALL_BC,{}),bc(2,FARFIELD_BC,{}),bc(3,FARFIELD_BC,{}),bc(4,FARFIELD_BC,{})}; FlowNumericsConfig nc=nume(); const FlowFV_base<freal>*s=create_const_flowSpatialDiscretization<freal>(&g,pc,nc); Rnd r(4);
	Vec u,q,dt,x,y,z; createGhostedSystemVector(&g,4,&u); VecDuplicate(u,&q); createSystemVector(&g,1,&dt); createSystemVector(&g,4,&x); VecDuplicate(x,&y); VecDuplicate(x,&z); PetscScalar*a; VecGetArray(u,&a); for(int e=0;e<g.gnelem();e++) { a[4*e]=1+r(-.1,.1); a[4*e+1]=0.9+r(-.1,.1); a[4*e+2]=r(-.1,.1); a[4*e+3]=12+r(-1,1); } VecRestoreArray(u,&a); VecSet(q,0); s->compute_residual(u,q,false,NULL); VecSet(dt,0.0);
	VecGetArray(x,&a); for(int i=0;i<4*g.gnelem();i++) a[i]=r(-1,1); VecRestoreArray(x,&a); double n; VecNorm(x,NORM_2,&n); VecScale(x,1/n);
	MatrixFreeSpatialJacobian<4> J(s); J.set_state(u,q,dt); J.apply(x,y); double ny; VecNorm(y,NORM_2,&ny); for(double k: {1e3,1.0,1e-3,1e-8,1e-11}) { VecScale(x,k); J.apply(x,z); VecScale(x,1/k); VecScale(z,1/k); VecAXPY(z,-1,y); double d; VecNorm(z,NORM_2,&d); CHECK(d<1e-4*ny,"direction of norm %g: the product differs by %g of %g from that of the unit direction",k,d,ny); }
	VecDestroy(&u); VecDestroy(&q); VecDestroy(&dt); VecDestroy(&x); VecDestroy(&y); VecDestroy(&z); delete s; return 0; }
'''
