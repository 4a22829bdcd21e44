#pragma once
namespace tateyama::api::server {
class session_element {
public:
    virtual ~session_element() = default;
    virtual void dispose() = 0;
};
}
