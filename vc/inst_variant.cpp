// Instantiates the templates of Variant so that clang shows their bodies; it contains no code of its own.
#include "hsmcpp/variant.hpp"
namespace hsmcpp {
struct Custom {
    int64_t id;
    bool operator==(const Custom&) const;
    bool operator>(const Custom&) const;
};
template Variant::Variant(const Custom&);
template Variant& Variant::operator=(const Custom&);
template Variant Variant::make(const Custom&);
template Variant Variant::makeCustom(const Custom&);
template std::shared_ptr<Custom> Variant::getCustomType<Custom>() const;
template Variant::Variant(const std::vector<int64_t>&);
template Variant::Variant(const std::list<int64_t>&);
template Variant::Variant(const std::map<int64_t, int64_t>&);
template Variant Variant::make(const std::vector<int64_t>&);
template Variant Variant::make(const std::list<int64_t>&);
template Variant Variant::make(const std::map<int64_t, int64_t>&);
template Variant::Variant(const int64_t&, const int64_t&);
template Variant Variant::make(const int64_t&, const int64_t&);
template std::vector<int64_t> Variant::toVector(const std::function<int64_t(const Variant&)>&) const;
template std::list<int64_t> Variant::toList(const std::function<int64_t(const Variant&)>&) const;
template std::map<int64_t, int64_t> Variant::toMap(const std::function<int64_t(const Variant&)>&, const std::function<int64_t(const Variant&)>&) const;
template std::pair<int64_t, int64_t> Variant::toPair(const std::function<int64_t(const Variant&)>&, const std::function<int64_t(const Variant&)>&) const;
}
