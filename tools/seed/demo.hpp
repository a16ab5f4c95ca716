// small helpers shared by the demonstrations
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <array>
#include <set>
#include <map>
#include <functional>
#include <algorithm>
#include <petscksp.h>
#include "mesh/ameshutils.hpp"
#include "mesh/meshreaders.hpp"
#include "mesh/details_lineordering.hpp"
#include "mesh/meshordering.hpp"
#include "linalg/petscutils.hpp"
#include "linalg/alinalg.hpp"
#include "linalg/tracevector.hpp"
#include "spatial/flow_spatial.hpp"
#include "spatial/diffusion.hpp"
#include "ode/aodesolver.hpp"
#include "ode/nonlinearrelaxation.hpp"
#include "utilities/afactory.hpp"
#include "utilities/controlparser.hpp"
#include "utilities/mpiutils.hpp"
using namespace fvens;
typedef UMesh<freal,NDIM> Mesh;
#define CHECK(c,...) do { if(!(c)) { std::fprintf(stderr,"DEMO FAILED: "); std::fprintf(stderr,__VA_ARGS__); std::fprintf(stderr,"\n"); std::fflush(stderr); MPI_Abort(MPI_COMM_WORLD,1); std::exit(1); } } while(0)
struct Env { Env(int argc,char**argv) { PetscInitialize(&argc,&argv,NULL,NULL); PetscPopSignalHandler(); } ~Env() { PetscFinalize(); } };
// a plain mesh: points, cells (counter-clockwise), boundary edges with markers
struct Pm { std::vector<std::array<double,2>> p; std::vector<std::vector<int>> el; std::vector<std::array<int,3>> bf;
	void write(const std::string&f,int ntags=2) const { std::ofstream o(f); o.precision(17); o<<"$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n"<<p.size()<<"\n"; for(size_t i=0;i<p.size();i++) o<<i+1<<" "<<p[i][0]<<" "<<p[i][1]<<" 0\n"; o<<"$EndNodes\n$Elements\n"<<bf.size()+el.size()<<"\n"; int k=1; for(auto&b:bf) { o<<k++<<" 1 "<<ntags; for(int t=0;t<ntags;t++) o<<" "<<b[2]; o<<" "<<b[0]+1<<" "<<b[1]+1<<"\n"; } for(auto&e:el) { o<<k++<<" "<<(e.size()==3?2:3)<<" 2 1 1"; for(int v:e) o<<" "<<v+1; o<<"\n"; } o<<"$EndElements\n"; } };
// rectangle nx x ny; markers bottom 1, right 2, top 3, left 4; map moves the points
static Pm rect(int nx,int ny,bool tri,std::function<std::array<double,2>(double,double)> map=[](double x,double y) { return std::array<double,2>{{x,y}}; }) { Pm m; auto id=[&](int i,int j) { return j*(nx+1)+i; }; for(int j=0;j<=ny;j++) for(int i=0;i<=nx;i++) m.p.push_back(map(double(i)/nx,double(j)/ny)); for(int j=0;j<ny;j++) for(int i=0;i<nx;i++) { if(tri) { m.el.push_back({id(i,j),id(i+1,j),id(i+1,j+1)}); m.el.push_back({id(i,j),id(i+1,j+1),id(i,j+1)}); } else m.el.push_back({id(i,j),id(i+1,j),id(i+1,j+1),id(i,j+1)}); } for(int i=0;i<nx;i++) { m.bf.push_back({{id(i,0),id(i+1,0),1}}); m.bf.push_back({{id(i+1,ny),id(i,ny),3}}); } for(int j=0;j<ny;j++) { m.bf.push_back({{id(nx,j),id(nx,j+1),2}}); m.bf.push_back({{id(0,j+1),id(0,j),4}}); } return m; }
static Mesh load(const Pm&m,const std::string&dir) { std::string f=dir+"/demo.msh"; if(get_mpi_rank(MPI_COMM_WORLD)==0) m.write(f); MPI_Barrier(MPI_COMM_WORLD); return constructMesh(f); }
// deterministic numbers in [a,b]
struct Rnd { unsigned long long s; Rnd(unsigned long long k=1):s(k*2654435761ull+88172645463325252ull) {} double operator()(double a=0,double b=1) { s^=s<<13; s^=s>>7; s^=s<<17; return a+(b-a)*((s>>11)*(1.0/9007199254740992.0)); } };
static FlowPhysicsConfig phys(double M=0.5,double aoa=0,bool visc=false,bool cvisc=true,double Re=1000) { FlowPhysicsConfig c; c.gamma=1.4; c.Minf=M; c.Tinf=290; c.Reinf=Re; c.Pr=0.72; c.aoa=aoa; c.viscous_sim=visc; c.const_visc=cvisc; return c; }
static FlowBCConfig bc(int tag,BCType t,std::vector<freal> v={}) { FlowBCConfig b; b.bc_tag=tag; b.bc_type=t; b.bc_vals=v; return b; }
static FlowNumericsConfig nume(const std::string&flux="HLLC",const std::string&grad="NONE",const std::string&rec="NONE",bool o2=false,double lp=20) { FlowNumericsConfig n; n.conv_numflux=flux; n.conv_numflux_jac="HLLC"; n.gradientscheme=grad; n.reconstruction=rec; n.limiter_param=lp; n.order2=o2; return n; }
