#ifndef VP_STUB_XML
#define VP_STUB_XML
#include "ptree.hpp"
boost::property_tree::ptree& vp_xml();
std::string& vp_xml_name();
namespace boost { namespace property_tree
{
	inline void read_xml(const std::string& name, ptree& t, int = 0) { vp_xml_name() = name; t = vp_xml(); }
	namespace xml_parser { using property_tree::read_xml; }
}}
#endif
