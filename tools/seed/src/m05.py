P='C12'
FILES=[('src/spatial/limitedlinearreconstruction.cpp','''				if(jelem >= m->gnelem()+m->gnConnFace())
					continue;

				const scalar denom''','''				if(jelem >= m->gnelem())
					continue;

				const scalar denom''')]
NEEDS='WENO reconstruction on more than one process, cells next to another process'
BREAKS='the stencils across process boundaries are dropped, so that the reconstruction depends on the partition'
DEMO=r'''
// np 1 2
#include "demo.hpp"
int main(int argc,char**argv) { Env env(argc,argv); std::string W=argv[1]; Mesh g=load(rect(8,8,true,[](double x,double y) { return std::array<double,2>{{x+0.05*y,y+0.1*x*y}}; }),W);
	FlowPhysicsConfig pc=phys(0.4,0.05); pc.bcconf={bc(1,EXTRAPOLATION_BC,{}),bc(2,EXTRAPOLATION_BC,{}),bc(3,EXTRAPOLATION_BC,{}),bc(4,EXTRAPOLATION_BC,{})}; FlowNumericsConfig nc=nume("HLLC","LEASTSQUARES","WENO",true,20); const FlowFV_base<freal>*s=create_const_flowSpatialDiscretization<freal>(&g,pc,nc);
	Vec u,r,dt; createGhostedSystemVector(&g,4,&u); VecDuplicate(u,&r); PetscScalar*a; VecGetArray(u,&a); for(int e=0;e<g.gnelem();e++) { double x=0,y=0; for(int k=0;k<3;k++) { x+=g.gcoords(g.ginpoel(e,k),0)/3; y+=g.gcoords(g.ginpoel(e,k),1)/3; } a[4*e]=1+0.3*std::sin(5*x+3*y); a[4*e+1]=a[4*e]*(1+0.2*std::cos(4*x)); a[4*e+2]=0.1*std::sin(6*y); a[4*e+3]=12+2*std::sin(3*x-2*y); } VecRestoreArray(u,&a); VecGhostUpdateBegin(u,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(u,INSERT_VALUES,SCATTER_FORWARD); VecSet(r,0); VecGhostUpdateBegin(r,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(r,INSERT_VALUES,SCATTER_FORWARD); s->compute_residual(u,r,false,NULL); VecGhostUpdateBegin(r,ADD_VALUES,SCATTER_REVERSE); VecGhostUpdateEnd(r,ADD_VALUES,SCATTER_REVERSE);
	double n; VecNorm(r,NORM_2,&n); std::string f=W+"/norm1"; int np; MPI_Comm_size(MPI_COMM_WORLD,&np); if(np==1) { std::ofstream o(f); o.precision(17); o<<n; } else { std::ifstream i(f); double ref=0; i>>ref; CHECK(ref>0&&std::fabs(n-ref)<1e-9*ref,"residual norm %.15g on two processes, %.15g on one",n,ref); } VecDestroy(&u); VecDestroy(&r); delete s; return 0; }
'''
