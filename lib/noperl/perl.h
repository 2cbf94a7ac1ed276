// Stands for Perl's header: the drivers do not use the Perl binding.
#pragma once
struct SV { };
struct AV { };
#define newAV() ((AV*) 0)
#define newRV_inc(x) (x)
