P='C29'
FILES=[('src/spatial/flow_spatial.cpp','mpi_all_reduce<scalar>(funcs, 4, MPI_SUM, MPI_COMM_WORLD);','mpi_all_reduce<scalar>(funcs, 3, MPI_SUM, MPI_COMM_WORLD);')]
NEEDS='more than one process sharing the faces of one wall'
BREAKS='lift and drag are divided by the local instead of the total wall length'
DEMO=r'''
// np 1 3
#include "demo.hpp"
int main(int argc,char**argv) { Env env(argc,argv); std::string W=argv[1]; double L=2; Mesh g=load(rect(12,6,false,[L](double x,double y) { return std::array<double,2>{{L*x,y+0.2*x*x}}; }),W);
	FlowPhysicsConfig pc=phys(0.4,0.1); pc.bcconf={bc(1,SLIP_WALL_BC,{}),bc(2,FARFIELD_BC,{}),bc(3,FARFIELD_BC,{}),bc(4,FARFIELD_BC,{})}; FlowNumericsConfig nc=nume(); const FlowFV_base<freal>*s=create_const_flowSpatialDiscretization<freal>(&g,pc,nc);
	std::vector<double> u(4*g.gnelem()+4); std::vector<GradBlock_t<freal,NDIM,NVARS>> gr(g.gnelem()+1); for(auto&q:gr) q.setZero(); for(int e=0;e<g.gnelem();e++) { double x=0; for(int k=0;k<4;k++) x+=g.gcoords(g.ginpoel(e,k),0)/4; u[4*e]=1; u[4*e+1]=0.9; u[4*e+2]=0.1; u[4*e+3]=10+x; }
	MVector<freal> out(g.gnbface()+1,4); out.setZero(); std::tuple<freal,freal,freal> r=s->computeSurfaceData(amat::Array2dView<freal>(u.data(),g.gnelem(),4),gr.data(),1,out);
	// reference: over the faces of all processes
	double v[3]={0,0,0},w[3]; double wx=std::cos(pc.aoa),wy=std::sin(pc.aoa); int k=0; for(int f=0;f<g.gnbface();f++) if(g.gbtags(f,0)==1) { double a=g.gfacemetric(f,2),cp=out(k,2); v[0]+=cp*(-wy*g.gfacemetric(f,0)+wx*g.gfacemetric(f,1))*a; v[1]+=cp*(wx*g.gfacemetric(f,0)+wy*g.gfacemetric(f,1))*a; v[2]+=a; k++; } MPI_Allreduce(v,w,3,MPI_DOUBLE,MPI_SUM,MPI_COMM_WORLD);
	CHECK(std::fabs(std::get<0>(r)-w[0]/w[2])<1e-10*std::fabs(w[0]),"lift %g, expected %g",std::get<0>(r),w[0]/w[2]); CHECK(std::fabs(std::get<1>(r)-w[1]/w[2])<1e-10*std::fabs(w[1]),"drag %g, expected %g",std::get<1>(r),w[1]/w[2]); delete s; return 0; }
'''
