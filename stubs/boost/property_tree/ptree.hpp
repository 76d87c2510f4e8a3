// Stand-in for boost's property tree in the checks of Main.cpp: a list of paths and texts.
#ifndef VP_STUB_PTREE
#define VP_STUB_PTREE
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <boost/optional.hpp>
namespace boost { namespace property_tree
{
	struct ptree_error : public std::runtime_error { ptree_error(const std::string& m) : std::runtime_error(m) {} };
	struct ptree_bad_path : public ptree_error { ptree_bad_path(const std::string& m) : ptree_error(m) {} };
	struct ptree_bad_data : public ptree_error { ptree_bad_data(const std::string& m) : ptree_error(m) {} };
	class ptree
	{
		std::vector<std::pair<std::string, std::string>> data;
		const std::string* Find(const std::string& p) const
		{
			for (const auto& d : data) { if (d.first == p) { return &d.second; } }
			return nullptr;
		}
		static void To(const std::string& s, double& v) { v = std::stod(s); }
		static void To(const std::string& s, float& v) { v = static_cast<float>(std::stod(s)); }
		static void To(const std::string& s, int& v) { v = std::stoi(s); }
		static void To(const std::string& s, long& v) { v = std::stol(s); }
		static void To(const std::string& s, long long& v) { v = std::stoll(s); }
		static void To(const std::string& s, unsigned& v) { v = static_cast<unsigned>(std::stoul(s)); }
		static void To(const std::string& s, unsigned long& v) { v = std::stoul(s); }
		static void To(const std::string& s, unsigned long long& v) { v = std::stoull(s); }
		static void To(const std::string& s, std::string& v) { v = s; }
	public:
		void put(const std::string& p, const std::string& v) { data.emplace_back(p, v); }
		void vp_erase(const std::string& p)
		{
			for (std::size_t i = 0; i < data.size();) { if (data[i].first == p) { data.erase(data.begin() + static_cast<long>(i)); } else { i++; } }
		}
		template<typename T> T get(const std::string& p) const
		{
			const auto* s = Find(p);
			if (s == nullptr) { throw ptree_bad_path("No such node (" + p + ")"); }
			T v{};
			try { To(*s, v); }
			catch (const std::exception&) { throw ptree_bad_data("conversion of data failed"); }
			return v;
		}
		template<typename T> T get(const std::string& p, const T& other) const { return Find(p) == nullptr ? other : get<T>(p); }
		template<typename T> boost::optional<T> get_optional(const std::string& p) const
		{
			if (Find(p) == nullptr) { return boost::optional<T>(); }
			return boost::optional<T>(get<T>(p));
		}
		ptree get_child(const std::string& p) const
		{
			ptree r;
			for (const auto& d : data)
			{
				if (d.first.compare(0, p.size() + 1, p + ".") == 0) { r.put(d.first.substr(p.size() + 1), d.second); }
				else if (d.first == p) { r.put("", d.second); }
			}
			if (r.data.empty()) { throw ptree_bad_path("No such node (" + p + ")"); }
			return r;
		}
		template<typename T> T get_value() const { return get<T>(""); }
		std::string data_() const { return get<std::string>(""); }
	};
}}
#endif
