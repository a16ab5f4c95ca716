P='C30'
FILES=[('src/spatial/aoutput.cpp','		std::string fname = basename+"-surf_o"+std::to_string(obcm[im])+".out";','		std::string fname = basename+"-surf_o"+std::to_string(obcm[im]%1000)+".out";')]
NEEDS='an output boundary marker of 1000 or more'
BREAKS='the output of that boundary goes to the file of another marker'
DEMO=r'''
#include "demo.hpp"
#include "spatial/aoutput.hpp"
int main(int argc,char**argv) { Env env(argc,argv); std::string W=argv[1]; Pm m=rect(4,3,false); for(auto&b:m.bf) if(b[2]==3) b[2]=1002; Mesh g=load(m,W); FlowPhysicsConfig pc=phys(0.4,0.1); pc.bcconf={bc(1,SLIP_WALL_BC,{}),bc(2,FARFIELD_BC,{}),bc(1002,FARFIELD_BC,{}),bc(4,FARFIELD_BC,{})}; FlowNumericsConfig nc=nume(); const FlowFV_base<freal>*s=create_const_flowSpatialDiscretization<freal>(&g,pc,nc); IdealGasPhysics<freal> ph(pc.gamma,pc.Minf,pc.Tinf,pc.Reinf,pc.Pr);
	Vec u; createGhostedSystemVector(&g,4,&u); PetscScalar*a; VecGetArray(u,&a); for(int e=0;e<g.gnelem();e++) { a[4*e]=1; a[4*e+1]=0.9; a[4*e+2]=0.1; a[4*e+3]=12; } VecRestoreArray(u,&a); { FlowOutput out(s,&ph,pc.aoa); out.exportSurfaceData(u,{1},{2,1002},W+"/d"); }
	for(int t: {2,1002}) { std::ifstream f(W+"/d-surf_o"+std::to_string(t)+".out"); CHECK(bool(f),"no file for marker %d",t); int n=0; std::string l; while(std::getline(f,l)) if(l.size()&&l[0]!='#'&&l.find_first_of("0123456789")!=std::string::npos) n++; CHECK(n>=(t==2?3:4),"%d lines for marker %d",n,t); }
	VecDestroy(&u); delete s; return 0; }
'''
