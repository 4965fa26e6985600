#pragma once
// Stand-in for pika::program_options.
#include <any>
#include <map>
#include <memory>
#include <ostream>
#include <string>
#include <vector>
namespace pika::program_options {
struct value_semantic {};
template <class T> struct typed_value : value_semantic { typed_value* default_value(const T&) { return this; } typed_value* default_value(const T&, const std::string&) { return this; } typed_value* implicit_value(const T&) { return this; } };
template <class T> typed_value<T>* value() { return new typed_value<T>; }
inline typed_value<bool>* bool_switch() { return new typed_value<bool>; }
struct option_description {};
class options_description;
struct options_description_easy_init {
  options_description* o;
  options_description_easy_init& operator()(const char* name, const char* desc);
  options_description_easy_init& operator()(const char* name, const value_semantic* s);
  options_description_easy_init& operator()(const char* name, const value_semantic* s, const char* desc);
};
class options_description {
public:
  std::vector<std::string> names;
  options_description() = default;
  explicit options_description(const std::string&) {}
  options_description_easy_init add_options() { return {this}; }
  options_description& add(const options_description& o) { names.insert(names.end(), o.names.begin(), o.names.end()); return *this; }
  friend std::ostream& operator<<(std::ostream& os, const options_description&) { return os; }
};
inline options_description_easy_init& options_description_easy_init::operator()(const char* n, const char*) { o->names.push_back(n); return *this; }
inline options_description_easy_init& options_description_easy_init::operator()(const char* n, const value_semantic*) { o->names.push_back(n); return *this; }
inline options_description_easy_init& options_description_easy_init::operator()(const char* n, const value_semantic*, const char*) { o->names.push_back(n); return *this; }
struct variable_value { std::any v; template <class T> const T& as() const { return *std::any_cast<T>(&v); } bool empty() const { return !v.has_value(); } };
struct variables_map : std::map<std::string, variable_value> { const variable_value& operator[](const std::string& k) const { static variable_value e; auto i = find(k); return i == end() ? e : i->second; } };
struct parsed_options {};
inline parsed_options parse_command_line(int, const char* const*, const options_description&) { return {}; }
inline void store(const parsed_options&, variables_map&) {}
inline void notify(variables_map&) {}
}
