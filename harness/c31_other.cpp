// C31: a second unit that uses the endpoint
#include <boost/hana.hpp>
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/endpoint_open.hpp>
#include <nbdl/js.hpp>
#include <nbdl/websocket_api/client_endpoint.hpp>
#include <emscripten/val.h>
#include <queue>
#include <string>
#include <vector>

std::string c31_other_unit()
{
  namespace event = nbdl::endpoint_event;
  auto e = nbdl::endpoint_open(nbdl::websocket_api::client_endpoint{"ws://other", {}, {}}, std::queue<std::vector<unsigned char>>{},
    nbdl::endpoint_handler(event::on_ready([](auto&) { }), event::on_message([](auto&, auto const&) { }), event::on_close([](auto&, auto&&...) { })));
  return emscripten::val::eval("return vf.sockets[vf.sockets.length - 1].url").as<std::string>();
}
