#pragma once
namespace boost { namespace timer { struct auto_cpu_timer { auto_cpu_timer() {} }; } }
