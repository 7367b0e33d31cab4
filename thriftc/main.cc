// Reads an IDL file and runs the Go generator on it: thriftc FILE.thrift OUTPUT_DIRECTORY
#include "t_generator.h"

#include <stdio.h>
#include <stdlib.h>

#include <set>

t_type* g_type_void = new t_base_type("void", t_base_type::TYPE_VOID);
t_type* g_type_string = new t_base_type("string", t_base_type::TYPE_STRING);
t_type* g_type_bool = new t_base_type("bool", t_base_type::TYPE_BOOL);
t_type* g_type_byte = new t_base_type("byte", t_base_type::TYPE_BYTE);
t_type* g_type_i16 = new t_base_type("i16", t_base_type::TYPE_I16);
t_type* g_type_i32 = new t_base_type("i32", t_base_type::TYPE_I32);
t_type* g_type_i64 = new t_base_type("i64", t_base_type::TYPE_I64);
t_type* g_type_double = new t_base_type("double", t_base_type::TYPE_DOUBLE);

static t_type* make_binary() {
  t_base_type* t = new t_base_type("string", t_base_type::TYPE_STRING);
  t->set_binary(true);
  return t;
}
t_type* g_type_binary = make_binary();

namespace {

struct token {
  enum kind_t { END, NAME, INTEGER, DOUBLE, STRING, PUNCTUATION } kind;
  std::string text;
  std::string doc;
};

class parser {
public:
  parser(const std::string& path) : path_(path), pos_(0) {
    std::ifstream in(path.c_str());
    if (!in) {
      fail("cannot read " + path);
    }
    std::stringstream s;
    s << in.rdbuf();
    text_ = s.str();
    next();
  }

  t_program* parse() {
    size_t slash = path_.rfind('/');
    std::string name = path_.substr(slash == std::string::npos ? 0 : slash + 1);
    program_ = new t_program(path_, name.substr(0, name.find('.')));
    while (now_.kind != token::END) {
      definition();
    }
    return program_;
  }

private:
  void fail(const std::string& message) {
    std::cerr << path_ << ": " << message << " near '" << now_.text << "'" << std::endl;
    exit(1);
  }

  void next() {
    std::string doc;
    for (;;) {
      while (pos_ < text_.size() && isspace(text_[pos_])) {
        ++pos_;
      }
      if (text_.compare(pos_, 2, "//") == 0 || text_.compare(pos_, 1, "#") == 0) {
        pos_ = std::min(text_.find('\n', pos_), text_.size());
      } else if (text_.compare(pos_, 2, "/*") == 0) {
        size_t end = text_.find("*/", pos_);
        if (text_.compare(pos_, 3, "/**") == 0) {
          doc = text_.substr(pos_ + 3, end - pos_ - 3) + "\n";
        }
        pos_ = end + 2;
      } else {
        break;
      }
    }
    now_ = token();
    now_.kind = token::END;
    now_.doc = doc;
    if (pos_ >= text_.size()) {
      return;
    }
    size_t from = pos_;
    char c = text_[pos_];
    if (isalpha(c) || c == '_') {
      while (pos_ < text_.size() && (isalnum(text_[pos_]) || text_[pos_] == '_' || text_[pos_] == '.')) {
        ++pos_;
      }
      now_.kind = token::NAME;
      now_.text = text_.substr(from, pos_ - from);
    } else if (isdigit(c) || c == '-' || c == '+') {
      ++pos_;
      now_.kind = token::INTEGER;
      while (pos_ < text_.size() && (isalnum(text_[pos_]) || text_[pos_] == '.' ||
                                     ((text_[pos_] == '-' || text_[pos_] == '+') && tolower(text_[pos_ - 1]) == 'e'))) {
        if (text_.compare(from, 2, "0x") != 0 && (text_[pos_] == '.' || tolower(text_[pos_]) == 'e')) {
          now_.kind = token::DOUBLE;
        }
        ++pos_;
      }
      now_.text = text_.substr(from, pos_ - from);
    } else if (c == '"' || c == '\'') {
      now_.kind = token::STRING;
      for (++pos_; text_[pos_] != c; ++pos_) {
        if (text_[pos_] == '\\') {
          ++pos_;
          switch (text_[pos_]) {
          case 'n': now_.text += '\n'; break;
          case 'r': now_.text += '\r'; break;
          case 't': now_.text += '\t'; break;
          default: now_.text += text_[pos_];
          }
        } else {
          now_.text += text_[pos_];
        }
      }
      ++pos_;
    } else {
      now_.kind = token::PUNCTUATION;
      now_.text = std::string(1, c);
      ++pos_;
    }
  }

  bool is(const std::string& text) { return now_.kind != token::STRING && now_.text == text; }

  bool take(const std::string& text) {
    if (!is(text)) {
      return false;
    }
    next();
    return true;
  }

  void need(const std::string& text) {
    if (!take(text)) {
      fail("expected " + text);
    }
  }

  std::string name() {
    if (now_.kind != token::NAME) {
      fail("expected a name");
    }
    std::string s = now_.text;
    next();
    return s;
  }

  int64_t integer() {
    if (now_.kind != token::INTEGER) {
      fail("expected an integer");
    }
    int64_t n = strtoll(now_.text.c_str(), NULL, 0);
    next();
    return n;
  }

  void separator() { take(",") || take(";"); }

  void document(t_doc* d, const std::string& doc) {
    if (!doc.empty()) {
      d->set_doc(doc);
    }
  }

  void declare(t_type* t) {
    types_[t->get_name()] = t;
  }

  t_type* type() {
    if (take("list")) {
      need("<");
      t_type* e = type();
      need(">");
      return new t_list(e);
    }
    if (take("set")) {
      need("<");
      t_type* e = type();
      need(">");
      return new t_set(e);
    }
    if (take("map")) {
      need("<");
      t_type* k = type();
      need(",");
      t_type* v = type();
      need(">");
      return new t_map(k, v);
    }
    std::string s = name();
    if (s == "void") return g_type_void;
    if (s == "string") return g_type_string;
    if (s == "binary") return g_type_binary;
    if (s == "bool") return g_type_bool;
    if (s == "byte") return g_type_byte;
    if (s == "i16") return g_type_i16;
    if (s == "i32") return g_type_i32;
    if (s == "i64") return g_type_i64;
    if (s == "double") return g_type_double;
    if (types_.find(s) == types_.end()) {
      fail("unknown type " + s);
    }
    return types_[s];
  }

  t_const_value* value() {
    t_const_value* v = new t_const_value();
    if (now_.kind == token::STRING) {
      v->set_string(now_.text);
      next();
    } else if (now_.kind == token::INTEGER) {
      v->set_integer(integer());
    } else if (now_.kind == token::DOUBLE) {
      v->set_double(strtod(now_.text.c_str(), NULL));
      next();
    } else if (take("[")) {
      v->set_list();
      while (!take("]")) {
        v->add_list(value());
        separator();
      }
    } else if (take("{")) {
      v->set_map();
      while (!take("}")) {
        t_const_value* k = value();
        need(":");
        v->add_map(k, value());
        separator();
      }
    } else {
      std::string s = name();
      if (s == "true" || s == "false") {
        v->set_integer(s == "true");
      } else if (numbers_.find(s) != numbers_.end()) {
        v->set_identifier(s, numbers_[s]);
      } else if (consts_.find(s) != consts_.end()) {
        return consts_[s];
      } else {
        fail("unknown constant " + s);
      }
    }
    return v;
  }

  void fields(t_struct* s, const std::string& end, bool arguments) {
    int32_t automatic = -1;
    while (!take(end)) {
      std::string doc = now_.doc;
      int32_t key = automatic;
      if (now_.kind == token::INTEGER) {
        key = integer();
        need(":");
      } else {
        --automatic;
      }
      t_field::e_req req = t_field::T_OPT_IN_REQ_OUT;
      if (take("required")) {
        req = t_field::T_REQUIRED;
      } else if (take("optional")) {
        req = arguments ? t_field::T_OPT_IN_REQ_OUT : t_field::T_OPTIONAL;
      }
      t_type* t = type();
      t_field* f = new t_field(t, name(), key);
      f->set_req(req);
      document(f, doc);
      if (take("=")) {
        f->set_value(value());
      }
      if (!s->append(f)) {
        fail("two fields have the same id");
      }
      separator();
    }
  }

  // Declares what the included program defines, by names that begin with the program's.
  void include(const std::string& path) {
    parser included(path);
    t_program* program = included.parse();
    const std::string scope = program->get_name() + ".";
    program_->add_include(program);
    declare(types_, included.types_, scope);
    declare(services_, included.services_, scope);
    declare(numbers_, included.numbers_, scope);
    declare(consts_, included.consts_, scope);
  }

  template <typename T>
  void declare(std::map<std::string, T>& to, const std::map<std::string, T>& from, const std::string& scope) {
    typename std::map<std::string, T>::const_iterator it;
    for (it = from.begin(); it != from.end(); ++it) {
      to[scope + it->first] = it->second;
    }
  }

  void definition() {
    std::string doc = now_.doc;
    if (take("include")) {
      if (now_.kind != token::STRING) {
        fail("expected a file");
      }
      size_t slash = path_.rfind('/');
      include((slash == std::string::npos ? "" : path_.substr(0, slash + 1)) + now_.text);
      next();
    } else if (take("namespace")) {
      std::string language;
      if (take("*")) {
        language = "*";
      } else {
        language = name();
      }
      program_->set_namespace(language, name());
    } else if (take("typedef")) {
      t_type* t = type();
      t_typedef* td = new t_typedef(program_, t, name());
      document(td, doc);
      declare(td);
      program_->add_typedef(td);
      separator();
    } else if (take("enum")) {
      t_enum* e = new t_enum(program_);
      e->set_name(name());
      document(e, doc);
      need("{");
      int64_t number = -1;
      while (!take("}")) {
        std::string n = name();
        if (take("=")) {
          number = integer();
          e->append(new t_enum_value(n, number));
        } else {
          e->append(new t_enum_value(n));
          ++number;
        }
        numbers_[e->get_name() + "." + n] = number;
        separator();
      }
      declare(e);
      program_->add_enum(e);
    } else if (take("const")) {
      t_type* t = type();
      std::string n = name();
      need("=");
      t_const_value* v = value();
      consts_[n] = v;
      t_const* c = new t_const(t, n, v);
      document(c, doc);
      program_->add_const(c);
      separator();
    } else if (is("struct") || is("exception") || is("union")) {
      std::string kind = name();
      t_struct* s = new t_struct(program_, name());
      s->set_xception(kind == "exception");
      s->set_union(kind == "union");
      document(s, doc);
      declare(s);
      need("{");
      fields(s, "}", false);
      if (kind == "exception") {
        program_->add_xception(s);
      } else {
        program_->add_struct(s);
      }
    } else if (take("service")) {
      t_service* s = new t_service(program_);
      s->set_name(name());
      document(s, doc);
      if (take("extends")) {
        std::string base = name();
        if (services_.find(base) == services_.end()) {
          fail("unknown service " + base);
        }
        s->set_extends(services_[base]);
      }
      need("{");
      while (!take("}")) {
        std::string fdoc = now_.doc;
        bool oneway = take("oneway");
        t_type* result = type();
        std::string n = name();
        t_struct* arguments = new t_struct(program_, n + "_args");
        need("(");
        fields(arguments, ")", true);
        t_struct* exceptions = new t_struct(program_);
        if (take("throws")) {
          need("(");
          fields(exceptions, ")", true);
        }
        t_function* f = new t_function(result, n, arguments, exceptions, oneway);
        document(f, fdoc);
        s->add_function(f);
        separator();
      }
      services_[s->get_name()] = s;
      program_->add_service(s);
    } else {
      fail("expected a definition");
    }
  }

  std::string path_;
  std::string text_;
  size_t pos_;
  token now_;
  t_program* program_;
  std::map<std::string, t_type*> types_;
  std::map<std::string, t_service*> services_;
  std::map<std::string, int64_t> numbers_;
  std::map<std::string, t_const_value*> consts_;
};

// Generates the program and those it includes.
void generate(t_program* program, const std::string& directory) {
  for (size_t i = 0; i < program->get_includes().size(); ++i) {
    generate(program->get_includes()[i], directory);
  }
  program->set_out_path(directory);
  make_generator(program)->generate_program();
}

}  // namespace

int main(int argc, char** argv) {
  if (argc != 3) {
    std::cerr << "usage: thriftc FILE.thrift OUTPUT_DIRECTORY" << std::endl;
    return 2;
  }
  t_program* program = parser(argv[1]).parse();
  try {
    generate(program, std::string(argv[2]) + "/");
  } catch (const std::string& message) {
    std::cerr << argv[1] << ": " << message << std::endl;
    return 1;
  } catch (const char* message) {
    std::cerr << argv[1] << ": " << message << std::endl;
    return 1;
  }
  return 0;
}
