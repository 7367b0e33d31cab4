// The part of the Thrift compiler (0.9) that its Go generator uses: the syntax tree of an IDL program and the base class of
// generators, written from the compiler's documentation of these classes. /repo has the generator only, not the compiler.
#ifndef T_GENERATOR_H
#define T_GENERATOR_H

#include <stdint.h>

#include <algorithm>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

class t_program;
class t_struct;
class t_const_value;

class t_doc {
public:
  t_doc() : has_doc_(false) {}
  virtual ~t_doc() {}
  void set_doc(const std::string& doc) { doc_ = doc; has_doc_ = true; }
  const std::string& get_doc() const { return doc_; }
  bool has_doc() const { return has_doc_; }

private:
  bool has_doc_;
  std::string doc_;
};

class t_type : public t_doc {
public:
  t_type() : program_(NULL) {}
  t_type(const std::string& name) : program_(NULL), name_(name) {}
  t_type(t_program* program) : program_(program) {}
  t_type(t_program* program, const std::string& name) : program_(program), name_(name) {}
  virtual ~t_type() {}

  virtual void set_name(const std::string& name) { name_ = name; }
  virtual const std::string& get_name() const { return name_; }
  t_program* get_program() { return program_; }
  const t_program* get_program() const { return program_; }

  virtual bool is_void() const { return false; }
  virtual bool is_base_type() const { return false; }
  virtual bool is_string() const { return false; }
  virtual bool is_bool() const { return false; }
  virtual bool is_typedef() const { return false; }
  virtual bool is_enum() const { return false; }
  virtual bool is_struct() const { return false; }
  virtual bool is_xception() const { return false; }
  virtual bool is_container() const { return false; }
  virtual bool is_list() const { return false; }
  virtual bool is_set() const { return false; }
  virtual bool is_map() const { return false; }
  virtual bool is_service() const { return false; }

protected:
  t_program* program_;
  std::string name_;
};

class t_base_type : public t_type {
public:
  enum t_base {
    TYPE_VOID,
    TYPE_STRING,
    TYPE_BOOL,
    TYPE_BYTE,
    TYPE_I16,
    TYPE_I32,
    TYPE_I64,
    TYPE_DOUBLE
  };

  t_base_type(const std::string& name, t_base base) : t_type(name), base_(base), binary_(false) {}
  t_base get_base() const { return base_; }
  void set_binary(bool binary) { binary_ = binary; }
  bool is_void() const { return base_ == TYPE_VOID; }
  bool is_string() const { return base_ == TYPE_STRING; }
  bool is_bool() const { return base_ == TYPE_BOOL; }
  bool is_binary() const { return binary_ && base_ == TYPE_STRING; }
  bool is_base_type() const { return true; }

  static std::string t_base_name(t_base base) {
    switch (base) {
    case TYPE_VOID: return "void";
    case TYPE_STRING: return "string";
    case TYPE_BOOL: return "bool";
    case TYPE_BYTE: return "byte";
    case TYPE_I16: return "i16";
    case TYPE_I32: return "i32";
    case TYPE_I64: return "i64";
    case TYPE_DOUBLE: return "double";
    }
    return "(unknown)";
  }

private:
  t_base base_;
  bool binary_;
};

class t_typedef : public t_type {
public:
  t_typedef(t_program* program, t_type* type, const std::string& symbolic)
    : t_type(program, symbolic), type_(type), symbolic_(symbolic) {}
  t_type* get_type() const { return type_; }
  const std::string& get_symbolic() const { return symbolic_; }
  bool is_typedef() const { return true; }

private:
  t_type* type_;
  std::string symbolic_;
};

class t_enum_value : public t_doc {
public:
  t_enum_value(const std::string& name) : name_(name), has_value_(false), value_(0) {}
  t_enum_value(const std::string& name, int value) : name_(name), has_value_(true), value_(value) {}
  const std::string& get_name() const { return name_; }
  bool has_value() const { return has_value_; }
  int get_value() const { return value_; }

private:
  std::string name_;
  bool has_value_;
  int value_;
};

class t_enum : public t_type {
public:
  t_enum(t_program* program) : t_type(program) {}
  void append(t_enum_value* constant) { constants_.push_back(constant); }
  const std::vector<t_enum_value*>& get_constants() const { return constants_; }
  bool is_enum() const { return true; }

private:
  std::vector<t_enum_value*> constants_;
};

class t_const_value {
public:
  enum t_const_value_type { CV_INTEGER, CV_DOUBLE, CV_STRING, CV_MAP, CV_LIST, CV_IDENTIFIER };

  t_const_value() : intVal_(0), doubleVal_(0), valType_(CV_INTEGER) {}
  void set_string(const std::string& val) { valType_ = CV_STRING; stringVal_ = val; }
  const std::string& get_string() const { return stringVal_; }
  void set_integer(int64_t val) { valType_ = CV_INTEGER; intVal_ = val; }
  int64_t get_integer() const { return intVal_; }
  void set_double(double val) { valType_ = CV_DOUBLE; doubleVal_ = val; }
  double get_double() const { return doubleVal_; }
  void set_map() { valType_ = CV_MAP; }
  void add_map(t_const_value* key, t_const_value* val) { mapVal_[key] = val; }
  const std::map<t_const_value*, t_const_value*>& get_map() const { return mapVal_; }
  void set_list() { valType_ = CV_LIST; }
  void add_list(t_const_value* val) { listVal_.push_back(val); }
  const std::vector<t_const_value*>& get_list() const { return listVal_; }
  // The name of an enumeration's value stands for its number.
  void set_identifier(const std::string& val, int64_t number) { valType_ = CV_IDENTIFIER; identifierVal_ = val; intVal_ = number; }
  const std::string& get_identifier() const { return identifierVal_; }
  t_const_value_type get_type() const { return valType_; }

private:
  std::map<t_const_value*, t_const_value*> mapVal_;
  std::vector<t_const_value*> listVal_;
  std::string stringVal_;
  int64_t intVal_;
  double doubleVal_;
  std::string identifierVal_;
  t_const_value_type valType_;
};

class t_const : public t_doc {
public:
  t_const(t_type* type, const std::string& name, t_const_value* value) : type_(type), name_(name), value_(value) {}
  t_type* get_type() const { return type_; }
  const std::string& get_name() const { return name_; }
  t_const_value* get_value() const { return value_; }

private:
  t_type* type_;
  std::string name_;
  t_const_value* value_;
};

class t_field : public t_doc {
public:
  enum e_req { T_REQUIRED, T_OPTIONAL, T_OPT_IN_REQ_OUT };

  t_field(t_type* type, const std::string& name)
    : type_(type), name_(name), key_(0), req_(T_OPT_IN_REQ_OUT), value_(NULL) {}
  t_field(t_type* type, const std::string& name, int32_t key)
    : type_(type), name_(name), key_(key), req_(T_OPT_IN_REQ_OUT), value_(NULL) {}
  t_type* get_type() { return type_; }
  const t_type* get_type() const { return type_; }
  const std::string& get_name() const { return name_; }
  int32_t get_key() const { return key_; }
  e_req get_req() const { return req_; }
  void set_req(e_req req) { req_ = req; }
  void set_value(t_const_value* value) { value_ = value; }
  t_const_value* get_value() { return value_; }
  const t_const_value* get_value() const { return value_; }

  struct key_compare {
    bool operator()(t_field const* const& a, t_field const* const& b) { return a->get_key() < b->get_key(); }
  };

private:
  t_type* type_;
  std::string name_;
  int32_t key_;
  e_req req_;
  t_const_value* value_;
};

class t_struct : public t_type {
public:
  t_struct(t_program* program) : t_type(program), is_xception_(false), is_union_(false) {}
  t_struct(t_program* program, const std::string& name) : t_type(program, name), is_xception_(false), is_union_(false) {}
  void set_xception(bool is_xception) { is_xception_ = is_xception; }
  void set_union(bool is_union) { is_union_ = is_union; }
  bool append(t_field* elem) {
    for (size_t i = 0; i < members_.size(); ++i) {
      if (members_[i]->get_key() == elem->get_key()) {
        return false;
      }
    }
    members_.push_back(elem);
    members_in_id_order_.insert(std::upper_bound(members_in_id_order_.begin(), members_in_id_order_.end(), elem,
                                                 t_field::key_compare()), elem);
    return true;
  }
  const std::vector<t_field*>& get_members() const { return members_; }
  const std::vector<t_field*>& get_sorted_members() const { return members_in_id_order_; }
  bool is_struct() const { return !is_xception_; }
  bool is_xception() const { return is_xception_; }
  bool is_union() const { return is_union_; }

private:
  std::vector<t_field*> members_;
  std::vector<t_field*> members_in_id_order_;
  bool is_xception_;
  bool is_union_;
};

class t_container : public t_type {
public:
  const std::string& get_cpp_name() const { return cpp_name_; }
  bool has_cpp_name() const { return false; }
  bool is_container() const { return true; }

private:
  std::string cpp_name_;
};

class t_list : public t_container {
public:
  t_list(t_type* elem_type) : elem_type_(elem_type) {}
  t_type* get_elem_type() const { return elem_type_; }
  bool is_list() const { return true; }

private:
  t_type* elem_type_;
};

class t_set : public t_container {
public:
  t_set(t_type* elem_type) : elem_type_(elem_type) {}
  t_type* get_elem_type() const { return elem_type_; }
  bool is_set() const { return true; }

private:
  t_type* elem_type_;
};

class t_map : public t_container {
public:
  t_map(t_type* key_type, t_type* val_type) : key_type_(key_type), val_type_(val_type) {}
  t_type* get_key_type() const { return key_type_; }
  t_type* get_val_type() const { return val_type_; }
  bool is_map() const { return true; }

private:
  t_type* key_type_;
  t_type* val_type_;
};

class t_function : public t_doc {
public:
  t_function(t_type* returntype, const std::string& name, t_struct* arglist, t_struct* xceptions, bool oneway)
    : returntype_(returntype), name_(name), arglist_(arglist), xceptions_(xceptions), oneway_(oneway) {}
  t_type* get_returntype() const { return returntype_; }
  const std::string& get_name() const { return name_; }
  t_struct* get_arglist() const { return arglist_; }
  t_struct* get_xceptions() const { return xceptions_; }
  bool is_oneway() const { return oneway_; }

private:
  t_type* returntype_;
  std::string name_;
  t_struct* arglist_;
  t_struct* xceptions_;
  bool oneway_;
};

class t_service : public t_type {
public:
  t_service(t_program* program) : t_type(program), extends_(NULL) {}
  bool is_service() const { return true; }
  void set_extends(t_service* extends) { extends_ = extends; }
  void add_function(t_function* func) { functions_.push_back(func); }
  const std::vector<t_function*>& get_functions() const { return functions_; }
  t_service* get_extends() { return extends_; }
  const t_service* get_extends() const { return extends_; }

private:
  std::vector<t_function*> functions_;
  t_service* extends_;
};

class t_program : public t_doc {
public:
  t_program(const std::string& path, const std::string& name) : path_(path), name_(name), out_path_("./") {}
  const std::string& get_path() const { return path_; }
  const std::string& get_name() const { return name_; }
  const std::string& get_out_path() const { return out_path_; }
  void set_out_path(const std::string& out_path) { out_path_ = out_path; }
  const std::vector<t_typedef*>& get_typedefs() const { return typedefs_; }
  const std::vector<t_enum*>& get_enums() const { return enums_; }
  const std::vector<t_const*>& get_consts() const { return consts_; }
  const std::vector<t_struct*>& get_structs() const { return structs_; }
  const std::vector<t_struct*>& get_xceptions() const { return xceptions_; }
  const std::vector<t_struct*>& get_objects() const { return objects_; }
  const std::vector<t_service*>& get_services() const { return services_; }
  const std::vector<t_program*>& get_includes() const { return includes_; }
  void add_typedef(t_typedef* td) { typedefs_.push_back(td); }
  void add_enum(t_enum* te) { enums_.push_back(te); }
  void add_const(t_const* tc) { consts_.push_back(tc); }
  void add_struct(t_struct* ts) { objects_.push_back(ts); structs_.push_back(ts); }
  void add_xception(t_struct* tx) { objects_.push_back(tx); xceptions_.push_back(tx); }
  void add_service(t_service* ts) { services_.push_back(ts); }
  void add_include(t_program* program) { includes_.push_back(program); }
  void set_namespace(const std::string& language, const std::string& name_space) { namespaces_[language] = name_space; }
  std::string get_namespace(const std::string& language) const {
    std::map<std::string, std::string>::const_iterator it = namespaces_.find(language);
    if (it == namespaces_.end()) {
      it = namespaces_.find("*");
    }
    return it == namespaces_.end() ? std::string() : it->second;
  }

private:
  std::string path_;
  std::string name_;
  std::string out_path_;
  std::vector<t_typedef*> typedefs_;
  std::vector<t_enum*> enums_;
  std::vector<t_const*> consts_;
  std::vector<t_struct*> objects_;
  std::vector<t_struct*> structs_;
  std::vector<t_struct*> xceptions_;
  std::vector<t_service*> services_;
  std::vector<t_program*> includes_;
  std::map<std::string, std::string> namespaces_;
};

extern t_type* g_type_void;
extern t_type* g_type_string;
extern t_type* g_type_binary;
extern t_type* g_type_bool;
extern t_type* g_type_byte;
extern t_type* g_type_i16;
extern t_type* g_type_i32;
extern t_type* g_type_i64;
extern t_type* g_type_double;

class t_generator {
public:
  t_generator(t_program* program) : program_(program), program_name_(program->get_name()), indent_(0), tmp_(0) {
    escape_['\n'] = "\\n";
    escape_['\r'] = "\\r";
    escape_['\t'] = "\\t";
    escape_['"'] = "\\\"";
    escape_['\\'] = "\\\\";
  }
  virtual ~t_generator() {}

  virtual void generate_program() {
    init_generator();
    const std::vector<t_enum*> enums = program_->get_enums();
    for (size_t i = 0; i < enums.size(); ++i) {
      generate_enum(enums[i]);
    }
    const std::vector<t_typedef*> typedefs = program_->get_typedefs();
    for (size_t i = 0; i < typedefs.size(); ++i) {
      generate_typedef(typedefs[i]);
    }
    const std::vector<t_struct*> objects = program_->get_objects();
    for (size_t i = 0; i < objects.size(); ++i) {
      if (objects[i]->is_xception()) {
        generate_xception(objects[i]);
      } else {
        generate_struct(objects[i]);
      }
    }
    generate_consts(program_->get_consts());
    const std::vector<t_service*> services = program_->get_services();
    for (size_t i = 0; i < services.size(); ++i) {
      service_name_ = get_service_name(services[i]);
      generate_service(services[i]);
    }
    close_generator();
  }

  const t_program* get_program() const { return program_; }

  void generate_docstring_comment(std::ofstream& out, const std::string& comment_start, const std::string& line_prefix,
                                  const std::string& contents, const std::string& comment_end) {
    if (comment_start != "") {
      indent(out) << comment_start;
    }
    std::stringstream docs(contents, std::ios_base::in);
    std::string line;
    while (std::getline(docs, line)) {
      if (line.size() > 0) {
        indent(out) << line_prefix << line << std::endl;
      } else if (!docs.eof()) {
        indent(out) << line_prefix << std::endl;
      }
    }
    if (comment_end != "") {
      indent(out) << comment_end;
    }
  }

  std::string escape_string(const std::string& in) const {
    std::string result;
    for (std::string::const_iterator it = in.begin(); it != in.end(); ++it) {
      std::map<char, std::string>::const_iterator res = escape_.find(*it);
      if (res != escape_.end()) {
        result.append(res->second);
      } else {
        result.push_back(*it);
      }
    }
    return result;
  }

  std::string get_escaped_string(t_const_value* constval) { return escape_string(constval->get_string()); }

protected:
  virtual void init_generator() {}
  virtual void close_generator() {}
  virtual void generate_consts(std::vector<t_const*> consts) {
    for (size_t i = 0; i < consts.size(); ++i) {
      generate_const(consts[i]);
    }
  }
  virtual void generate_typedef(t_typedef* ttypedef) = 0;
  virtual void generate_enum(t_enum* tenum) = 0;
  virtual void generate_const(t_const* tconst) {}
  virtual void generate_struct(t_struct* tstruct) = 0;
  virtual void generate_service(t_service* tservice) = 0;
  virtual void generate_xception(t_struct* txception) { generate_struct(txception); }

  virtual std::string get_program_name(t_program* tprogram) { return tprogram->get_name(); }
  virtual std::string get_service_name(t_service* tservice) { return tservice->get_name(); }
  virtual std::string get_out_dir() const { return program_->get_out_path() + out_dir_base_ + "/"; }

  std::string tmp(std::string name) {
    std::ostringstream out;
    out << name << tmp_++;
    return out.str();
  }

  void indent_up() { ++indent_; }
  void indent_down() { --indent_; }
  std::string indent() {
    std::string ind = "";
    for (int i = 0; i < indent_; ++i) {
      ind += "  ";
    }
    return ind;
  }
  std::ostream& indent(std::ostream& os) { return os << indent(); }

  std::string capitalize(std::string in) { in[0] = toupper(in[0]); return in; }
  std::string decapitalize(std::string in) { in[0] = tolower(in[0]); return in; }

  static t_type* get_true_type(t_type* type) {
    while (type->is_typedef()) {
      type = ((t_typedef*)type)->get_type();
    }
    return type;
  }

protected:
  t_program* program_;
  std::string program_name_;
  std::string service_name_;
  std::string out_dir_base_;
  std::map<char, std::string> escape_;

private:
  int indent_;
  int tmp_;
};

// The generator of a program, defined where the generator is.
t_generator* make_generator(t_program* program);

#define THRIFT_REGISTER_GENERATOR(language, long_name, doc)                                   \
  t_generator* make_generator(t_program* program) {                                           \
    return new t_##language##_generator(program, std::map<std::string, std::string>(), "");   \
  }

#endif
