#ifndef VOMP_HPP
#define VOMP_HPP
#include <cstdint>
#include <string>
void vomp_begin(uint64_t seed,long nt,long pre,long defer,bool log);
std::string vomp_log();
long vomp_tasks();
long vomp_switches();
#endif
