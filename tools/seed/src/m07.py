P='C27'
FILES=[('src/mesh/meshreaders.cpp','	m.maxnnode = nnodes[m.nbface]; m.maxnfael = nfaels[m.nbface];\n	for(int i = 0; i < nelm; i++)\n	{','	m.maxnnode = nnodes[m.nbface]; m.maxnfael = nfaels[m.nbface];\n	for(int i = 0; i < nelm-1; i++)\n	{')]
NEEDS='a Gmsh mesh of triangles in which the only quadrilateral is the last element of the file'
BREAKS='the connectivity arrays are sized for triangles and the last vertex of the quadrilateral is lost or written out of bounds'
DEMO=r'''
#include "demo.hpp"
int main(int argc,char**argv) { Env env(argc,argv); std::string W=argv[1]; for(int n=2;n<7;n++) { Pm m=rect(n,3,true); // the last two triangles become one quadrilateral
	std::vector<int> a=m.el[m.el.size()-2],b=m.el.back(); m.el.pop_back(); m.el.pop_back(); m.el.push_back({a[0],a[1],a[2],b[2]}); m.write(W+"/q.msh"); Mesh g(readMesh(W+"/q.msh")); int e=g.gnelem()-1; CHECK(g.gnnode(e)==4,"%d vertices",g.gnnode(e)); CHECK(g.gmaxnfael()==4,"at most %d faces per cell",g.gmaxnfael()); std::set<int> w(m.el.back().begin(),m.el.back().end()),h; for(int k=0;k<4;k++) h.insert(g.ginpoel(e,k)); CHECK(w==h,"vertices of the last cell differ"); }
	return 0; }
'''
