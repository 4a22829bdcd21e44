#pragma once
namespace yugawara::analyzer { class index_estimator { public: virtual ~index_estimator() = default; }; }
