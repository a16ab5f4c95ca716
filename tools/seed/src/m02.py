P='C19'
FILES=[('src/mesh/meshordering.cpp','lc.celline[linelems[0]] = -1;','lc.celline[curelem] = -1;')]
NEEDS='a boundary cell that is anisotropic while the neighbour it would grow into is not (a line of a single cell)'
BREAKS='such a cell is recorded in a line that does not contain it, so orderings lose it'
DEMO=r'''
#include "demo.hpp"
int main(int argc,char**argv) { Env env(argc,argv); std::string W=argv[1];
	// thin first layers at the bottom, isotropic ones above
	for(int h=1;h<4;h++) { Pm m=rect(5,5,false,[h](double x,double y) { double t=y*5; double z=t<=1?0.02*t:0.02+0.2*(t-1); return std::array<double,2>{{x,h==2?z*z+z:h==3?z*(1+0.3*x):z}}; }); Mesh g=load(m,W);
	for(double thr: {1.05,1.2,1.3,1.5,1.7,2.0,3.0}) { LineConfig lc=findLines<freal>(g,thr); std::vector<int> on(g.gnelem(),-1); for(size_t k=0;k<lc.lines.size();k++) { CHECK(lc.lines[k].size()>1,"short line"); for(int e:lc.lines[k]) { CHECK(on[e]<0,"cell %d twice",e); on[e]=k; } } for(int e=0;e<g.gnelem();e++) CHECK(on[e]==lc.celline[e],"threshold %g: cell %d is in line %d, recorded %d",thr,e,on[e],lc.celline[e]); } }
	return 0; }
'''
