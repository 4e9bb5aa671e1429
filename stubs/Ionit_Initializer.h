// The package that provides this header is not installed here; the analysed
// file only includes it.
#pragma once
namespace Ioss { namespace Init { class Initializer { public: Initializer() {} }; } }
