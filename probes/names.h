#pragma once
// hooks known to the analysis: they give an object's contents a name / read a named content back
namespace natrium_probe {
}
extern "C" void nat_name(const void* object, const char* name, int i);
extern "C" void nat_out(const char* name, int i, double value);
