#ifndef VERIF_CAMP_RESOURCE_HPP
#define VERIF_CAMP_RESOURCE_HPP
#include "camp/camp.hpp"
#include "camp/resource/platform.hpp"
namespace camp {
namespace resources {
inline namespace v1 {
struct Event {
  bool check() const { return true; }
  void wait() const {}
};
struct HostEvent : Event {};
struct Host {
  static Host get_default() { return Host{}; }
  Platform get_platform() const { return Platform::host; }
  Event get_event() const { return Event{}; }
  Event get_event_erased() const { return Event{}; }
  void wait() const {}
};
struct Resource {
  Resource() = default;
  template <typename T, typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, Resource>::value>::type>
  Resource(T&& t) : m_platform{t.get_platform()}
  {
  }
  Platform get_platform() const { return m_platform; }
  template <typename T>
  T get() const { return T{}; }
  template <typename T>
  T* try_get() { return nullptr; }
  Event get_event() const { return Event{}; }
  void wait() const {}
  void wait_for(Event*) const {}
  Platform m_platform{Platform::host};
};
template <typename Res>
struct EventProxy {
  explicit EventProxy(Res* r) : resource{r} {}
  EventProxy(Res& r) : resource{&r} {}
  EventProxy(Res&& r) : resource{&r} {}
  Event get() const { return resource->get_event(); }
  operator Event() const { return Event{}; }
  void wait() const {}
  Res* resource;
};
} // namespace v1
} // namespace resources
} // namespace camp
#endif
