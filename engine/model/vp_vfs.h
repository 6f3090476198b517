// in-memory file system used while executing symbolically
#pragma once
#include <string>
namespace vp_vfs {
	struct File { std::string name, data; File* next; };
	extern File* files;
	File* find(const std::string& n);
	File* create(const std::string& n); // truncates
	bool erase(const std::string& n);
}
