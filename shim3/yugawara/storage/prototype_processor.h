#pragma once
#include <functional>
#include <string>
#include <yugawara/schema/declaration.h>
#include <yugawara/storage/index.h>
#include <yugawara/storage/table.h>
namespace yugawara::storage {
class prototype_processor {
public:
    using diagnostic_consumer_type = std::function<void(std::string)>;
    virtual ~prototype_processor() = default;
};
class basic_prototype_processor : public prototype_processor {
public:
    virtual bool ensure(schema::declaration const&, table&, index&, diagnostic_consumer_type const&) { return true; }
    virtual bool ensure(schema::declaration const&, index&, diagnostic_consumer_type const&) { return true; }
};
}
