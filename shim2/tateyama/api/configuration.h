#pragma once
// Stand-in: configurations are only passed through by the code under check.
namespace tateyama::api::configuration { class whole; class section; }
