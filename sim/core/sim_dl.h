/* loadable modules that exist in the simulation */
#ifndef SIM_DL_H
#define SIM_DL_H
#include <map>
#include <string>
namespace sim { void dl_register(const std::string &file, const std::map<std::string, void *> &symbols); size_t dl_open_count(); }
#endif
