P='C28'
FILES=[('src/utilities/controlparser.cpp','opts.firstendcfl = infopts.get<freal>(c_pseudotime+"."+pt_init+".cfl_max");','opts.firstendcfl = std::max(infopts.get<freal>(c_pseudotime+"."+pt_init+".cfl_max"), opts.firstinitcfl);')]
NEEDS='a control file whose start-up phase lowers the CFL number'
BREAKS='the final CFL number of the start-up phase is not the one in the file'
DEMO=r'''
#include "demo.hpp"
#include "utilities/aoptionparser.hpp"
int main(int argc,char**argv) { Env env(argc,argv); std::string W=argv[1],R=argv[2]; std::ifstream in(R+"/testcases/visc-cylinder/laminar-implicit.ctrl"); std::string base((std::istreambuf_iterator<char>(in)),std::istreambuf_iterator<char>()); size_t i=base.find("pseudotime"); CHECK(i!=std::string::npos,"no pseudotime section"); size_t o=base.find("{",i); int d=0; size_t e=o; for(;e<base.size();e++) { if(base[e]=='{') d++; if(base[e]=='}'&&--d==0) break; }
	for(double a: {0.5,20.0}) for(double b: {0.25,3.0,50.0}) { std::ostringstream s; s.precision(17); s<<"{\npseudotime_stepping_type implicit\nnonlinear_update_scheme full\nmain {\ncfl_min 4\ncfl_max 2\ntolerance 1e-5\nmax_timesteps 7\n}\ninitialization {\ncfl_min "<<a<<"\ncfl_max "<<b<<"\ntolerance 1e-2\nmax_timesteps 9\n}\n"; std::string t=base.substr(0,o)+s.str()+base.substr(e); std::string f=W+"/c.ctrl"; std::ofstream(f)<<t; const char*av[]={"fvens",f.c_str(),NULL}; boost::program_options::options_description D("o"); auto cv=parse_cmd_options(2,av,D); FlowParserOptions p=parse_flow_controlfile(2,av,cv); CHECK(p.usestarter,"no start-up phase"); CHECK(p.firstinitcfl==a&&p.firstendcfl==b&&p.initcfl==4&&p.endcfl==2&&p.firstmaxiter==9&&p.maxiter==7,"start-up CFL numbers %g %g read as %g %g",a,b,p.firstinitcfl,p.firstendcfl); }
	return 0; }
'''
