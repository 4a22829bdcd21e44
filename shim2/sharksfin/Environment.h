#pragma once
namespace sharksfin {
class Environment {
public:
    void initialize() {}
};
}
