// Stand-in of the interface of the (not available offline) XML-Parser library
#pragma once
#include <XML-Parser/Tag.h>
#include <cctype>
#include <fstream>
#include <sstream>
#include <string>
#include <variant>

namespace xmlPrs {
namespace detail {
struct Reader {
  const std::string &s;
  std::size_t p = 0;
  void blanks() {
    while (p < s.size() && std::isspace(static_cast<unsigned char>(s[p])))
      ++p;
  }
  char at() const {
    if (p >= s.size())
      throw Error("unexpected end");
    return s[p];
  }
  void expect(char c) {
    if (at() != c)
      throw Error(std::string("expected ") + c);
    ++p;
  }
  std::string word() {
    std::size_t b = p;
    while (p < s.size() && (std::isalnum(static_cast<unsigned char>(s[p])) || s[p] == '_'))
      ++p;
    if (b == p)
      throw Error("expected a name");
    return s.substr(b, p - b);
  }
  void body(Tag &t) { // after the name
    while (true) {
      blanks();
      if (at() == '/') {
        ++p;
        expect('>');
        return;
      }
      if (at() == '>') {
        ++p;
        break;
      }
      auto k = word();
      blanks();
      expect('=');
      blanks();
      expect('"');
      auto e = s.find('"', p);
      if (e == std::string::npos)
        throw Error("unterminated value");
      t.getAttributes().emplace(k, s.substr(p, e - p));
      p = e + 1;
    }
    while (true) {
      blanks();
      expect('<');
      if (at() == '/') {
        ++p;
        if (word() != t.getName())
          throw Error("unexpected closing tag");
        blanks();
        expect('>');
        return;
      }
      body(t.addNested(word()));
    }
  }
};
} // namespace detail

inline std::variant<Root, Error> parse_xml(const std::string &file) {
  try {
    std::ifstream f(file);
    if (!f.is_open())
      throw Error("can't read " + file);
    std::stringstream b;
    b << f.rdbuf();
    std::string text = b.str();
    detail::Reader r{text};
    r.blanks();
    r.expect('<');
    Root root(r.word());
    r.body(root);
    return root.getName().empty() ? std::variant<Root, Error>{Error("")} : std::variant<Root, Error>{std::move(root)};
  } catch (const Error &e) {
    return e;
  }
}
} // namespace xmlPrs
