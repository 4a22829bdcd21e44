#pragma once
namespace tateyama::framework { class environment {}; }
