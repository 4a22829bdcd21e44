#pragma once
namespace takatori::plan {
class step {
public:
    virtual ~step() = default;
};
class exchange : public step {};
}
