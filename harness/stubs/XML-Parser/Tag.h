// Stand-in of the interface of the (not available offline) XML-Parser library
#pragma once
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <unordered_map>

namespace xmlPrs {
using Name = std::string;

class Error : public std::runtime_error {
public:
  explicit Error(const std::string &what) : std::runtime_error(what) {}
};

class Tag;
using TagPtr = std::unique_ptr<Tag>;
using Attributes = std::unordered_multimap<Name, std::string>;
using Nested = std::unordered_multimap<Name, TagPtr>;

class Tag {
public:
  explicit Tag(const Name &n) : name(n) {}
  Tag(Tag &&) = default;
  Tag &operator=(Tag &&) = default;

  const Name &getName() const { return name; }
  const Attributes &getAttributes() const { return attributes; }
  Attributes &getAttributes() { return attributes; }
  const Nested &getNested() const { return nested; }
  Nested &getNested() { return nested; }
  Tag &addNested(const Name &n) { return *nested.emplace(n, std::make_unique<Tag>(n))->second; }
  Tag &operator[](const Name &n) {
    auto it = nested.find(n);
    return it == nested.end() ? addNested(n) : *it->second;
  }
  void print(std::ostream &s, const std::string &indent = "") const {
    s << indent << '<' << name;
    for (const auto &[k, v] : attributes)
      s << ' ' << k << "=\"" << v << '"';
    if (nested.empty()) {
      s << "/>\n";
      return;
    }
    s << ">\n";
    for (const auto &[k, t] : nested)
      t->print(s, indent + "  ");
    s << indent << "</" << name << ">\n";
  }

private:
  Name name;
  Attributes attributes;
  Nested nested;
};

class Root : public Tag {
public:
  using Tag::Tag;
};
} // namespace xmlPrs
