// A second translation unit that includes and uses the library, linked into every configuration of C21.
#include <boost/url.hpp>
#include <boost/url/basic_url.hpp>
#include <boost/url/config.hpp>
#include <boost/url/error.hpp>
#include <boost/url/host_type.hpp>
#include <boost/url/scheme.hpp>
#include <boost/url/static_pool.hpp>
#include <boost/url/url.hpp>
#include <boost/url/url_base.hpp>
#include <boost/url/url_view.hpp>
#include <string>
std::size_t second_unit(char const* p, std::size_t n)
{
    namespace bu = boost::urls;
    bu::url_view v(bu::string_view(p, n));
    bu::static_pool<4096> pool;
    bu::basic_url<bu::basic_static_pool::allocator_type<char>> w(bu::string_view(p, n), pool.allocator());
    bu::url u(v.encoded_url());
    u.set_scheme("x").set_user("u").set_password("p").set_host("h").set_port(1).set_query("k=v").set_fragment("f");
    u.segments().insert(u.segments().end(), "s"); w.normalize();
    std::size_t r = u.params().count("k") + v.segments().size() + u.encoded_url().size() + w.encoded_url().size();
    for(auto s : v.segments()) r += s.string().size();
    for(auto x : v.params()) r += x.key().size();
    bu::error_code ec = bu::error::syntax;
    return r + ec.message().size() + bu::to_string(bu::string_to_scheme(u.scheme())).size() + (u.host_type() == bu::host_type::name);
}
