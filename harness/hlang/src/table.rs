// One entry per shipped language (examples/*).
use crate::probe::{Api, Entry};

fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

pub fn table() -> Vec<Box<dyn Api>> {
    let mut v: Vec<Box<dyn Api>> = vec![];
    {
        let l: &'static oak_actionscript::ActionScriptLanguage = leak(<oak_actionscript::ActionScriptLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_actionscript::ActionScriptLanguage, _, _>::new("actionscript", oak_actionscript::ActionScriptLexer::new(l), oak_actionscript::ActionScriptParser::new(l))));
    }
    {
        let l: &'static oak_ada::AdaLanguage = leak(<oak_ada::AdaLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_ada::AdaLanguage, _, _>::new("ada", oak_ada::AdaLexer::new(l), oak_ada::AdaParser::new(l))));
    }
    {
        let l: &'static oak_apl::AplLanguage = leak(<oak_apl::AplLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_apl::AplLanguage, _, _>::new("apl", oak_apl::AplLexer::new(l), oak_apl::AplParser::new(l))));
    }
    {
        let l: &'static oak_ascii_doc::AsciiDocLanguage = leak(<oak_ascii_doc::AsciiDocLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_ascii_doc::AsciiDocLanguage, _, _>::new("ascii-doc", oak_ascii_doc::AsciiDocLexer::new(l), oak_ascii_doc::AsciiDocParser::new(l))));
    }
    {
        let l: &'static oak_bash::BashLanguage = leak(<oak_bash::BashLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_bash::BashLanguage, _, _>::new("bash", oak_bash::lexer::BashLexer::new(l), oak_bash::BashParser::new(l))));
    }
    {
        let l: &'static oak_bat::language::BatLanguage = leak(<oak_bat::language::BatLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_bat::language::BatLanguage, _, _>::new("bat", oak_bat::lexer::BatLexer::new(l), oak_bat::parser::BatParser::new(l))));
    }
    {
        let l: &'static oak_c::language::CLanguage = leak(<oak_c::language::CLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_c::language::CLanguage, _, _>::new("c", oak_c::lexer::CLexer::new(l), oak_c::CParser::new(l))));
    }
    {
        let l: &'static oak_clojure::ClojureLanguage = leak(<oak_clojure::ClojureLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_clojure::ClojureLanguage, _, _>::new("clojure", oak_clojure::ClojureLexer::new(l), oak_clojure::ClojureParser::new(l))));
    }
    {
        let l: &'static oak_cmd::language::CmdLanguage = leak(<oak_cmd::language::CmdLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_cmd::language::CmdLanguage, _, _>::new("cmd", oak_cmd::lexer::CmdLexer::new(l), oak_cmd::parser::CmdParser::new(l))));
    }
    {
        let l: &'static oak_cobol::CobolLanguage = leak(<oak_cobol::CobolLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_cobol::CobolLanguage, _, _>::new("cobol", oak_cobol::lexer::CobolLexer::new(l), oak_cobol::CobolParser::new(l))));
    }
    {
        let l: &'static oak_coq::CoqLanguage = leak(<oak_coq::CoqLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_coq::CoqLanguage, _, _>::new("coq", oak_coq::CoqLexer::new(l), oak_coq::CoqParser::new(l))));
    }
    {
        let l: &'static oak_cpp::CppLanguage = leak(<oak_cpp::CppLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_cpp::CppLanguage, _, _>::new("cpp", oak_cpp::CppLexer::new(l), oak_cpp::CppParser::new(l))));
    }
    {
        let l: &'static oak_crystal::CrystalLanguage = leak(<oak_crystal::CrystalLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_crystal::CrystalLanguage, _, _>::new("crystal", oak_crystal::CrystalLexer::new(l), oak_crystal::CrystalParser::new(l))));
    }
    {
        let l: &'static oak_csharp::CSharpLanguage = leak(<oak_csharp::CSharpLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_csharp::CSharpLanguage, _, _>::new("csharp", oak_csharp::CSharpLexer::new(l), oak_csharp::CSharpParser::new(l))));
    }
    {
        let l: &'static oak_css::CssLanguage = leak(<oak_css::CssLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_css::CssLanguage, _, _>::new("css", oak_css::CssLexer::new(l), oak_css::CssParser::new(l))));
    }
    {
        let l: &'static oak_csv::language::CsvLanguage = leak(<oak_csv::language::CsvLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_csv::language::CsvLanguage, _, _>::new("csv", oak_csv::lexer::CsvLexer::new(l), oak_csv::CsvParser::new(l))));
    }
    {
        let l: &'static oak_d::DLanguage = leak(<oak_d::DLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_d::DLanguage, _, _>::new("d", oak_d::DLexer::new(l), oak_d::DParser::new(l))));
    }
    {
        let l: &'static oak_dart::DartLanguage = leak(<oak_dart::DartLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_dart::DartLanguage, _, _>::new("dart", oak_dart::DartLexer::new(l), oak_dart::DartParser::new(l))));
    }
    {
        let l: &'static oak_dejavu::DejavuLanguage = leak(<oak_dejavu::DejavuLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_dejavu::DejavuLanguage, _, _>::new("dejavu", oak_dejavu::DejavuLexer::new(l), oak_dejavu::DejavuParser::new(l))));
    }
    {
        let l: &'static oak_delphi::DelphiLanguage = leak(<oak_delphi::DelphiLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_delphi::DelphiLanguage, _, _>::new("delphi", oak_delphi::DelphiLexer::new(l), oak_delphi::parser::DelphiParser::new(l))));
    }
    {
        let l: &'static oak_dhall::DHallLanguage = leak(<oak_dhall::DHallLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_dhall::DHallLanguage, _, _>::new("dhall", oak_dhall::DHallLexer::new(l), oak_dhall::DHallParser::new(l))));
    }
    {
        let l: &'static oak_django::DjangoLanguage = leak(<oak_django::DjangoLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_django::DjangoLanguage, _, _>::new("django", oak_django::DjangoLexer::new(l), oak_django::DjangoParser::new(l))));
    }
    {
        let l: &'static oak_dockerfile::DockerfileLanguage = leak(<oak_dockerfile::DockerfileLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_dockerfile::DockerfileLanguage, _, _>::new("dockerfile", oak_dockerfile::DockerfileLexer::new(l), oak_dockerfile::DockerfileParser::new(l))));
    }
    {
        let l: &'static oak_dot::DotLanguage = leak(<oak_dot::DotLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_dot::DotLanguage, _, _>::new("dot", oak_dot::DotLexer::new(l), oak_dot::DotParser::new(l))));
    }
    {
        let l: &'static oak_elixir::ElixirLanguage = leak(<oak_elixir::ElixirLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_elixir::ElixirLanguage, _, _>::new("elixir", oak_elixir::ElixirLexer::new(l), oak_elixir::parser::ElixirParser::new(l))));
    }
    {
        let l: &'static oak_elm::ElmLanguage = leak(<oak_elm::ElmLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_elm::ElmLanguage, _, _>::new("elm", oak_elm::ElmLexer::new(l), oak_elm::parser::ElmParser::new(l))));
    }
    {
        let l: &'static oak_erlang::ErlangLanguage = leak(<oak_erlang::ErlangLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_erlang::ErlangLanguage, _, _>::new("erlang", oak_erlang::ErlangLexer::new(l), oak_erlang::parser::ErlangParser::new(l))));
    }
    {
        let l: &'static oak_fortran::FortranLanguage = leak(<oak_fortran::FortranLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_fortran::FortranLanguage, _, _>::new("fortran", oak_fortran::FortranLexer::new(l), oak_fortran::parser::FortranParser::new(l))));
    }
    {
        let l: &'static oak_fsharp::FSharpLanguage = leak(<oak_fsharp::FSharpLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_fsharp::FSharpLanguage, _, _>::new("fsharp", oak_fsharp::FSharpLexer::new(l), oak_fsharp::parser::FSharpParser::new(l))));
    }
    {
        let l: &'static oak_go::GoLanguage = leak(<oak_go::GoLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_go::GoLanguage, _, _>::new("go", oak_go::GoLexer::new(l), oak_go::GoParser::new(l))));
    }
    {
        let l: &'static oak_graphql::GraphQLLanguage = leak(oak_graphql::GraphQLLanguage {});
        v.push(Box::new(Entry::<oak_graphql::GraphQLLanguage, _, _>::new("graphql", oak_graphql::lexer::GraphQLLexer::new(l), oak_graphql::parser::GraphQLParser::new(l))));
    }
    {
        let l: &'static oak_groovy::language::GroovyLanguage = leak(<oak_groovy::language::GroovyLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_groovy::language::GroovyLanguage, _, _>::new("groovy", oak_groovy::lexer::GroovyLexer::new(l), oak_groovy::parser::GroovyParser::new(l))));
    }
    {
        let l: &'static oak_gsgl::GsglLanguage = leak(<oak_gsgl::GsglLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_gsgl::GsglLanguage, _, _>::new("gsgl", oak_gsgl::GsglLexer::new(l), oak_gsgl::GsglParser::new(l.clone()))));
    }
    {
        let l: &'static oak_handlebars::HandlebarsLanguage = leak(<oak_handlebars::HandlebarsLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_handlebars::HandlebarsLanguage, _, _>::new("handlebars", oak_handlebars::HandlebarsLexer::new(l), oak_handlebars::HandlebarsParser::new(l))));
    }
    {
        let l: &'static oak_haskell::HaskellLanguage = leak(<oak_haskell::HaskellLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_haskell::HaskellLanguage, _, _>::new("haskell", oak_haskell::HaskellLexer::new(l), oak_haskell::HaskellParser::new(l))));
    }
    {
        let l: &'static oak_hlsl::HlslLanguage = leak(<oak_hlsl::HlslLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_hlsl::HlslLanguage, _, _>::new("hlsl", oak_hlsl::HlslLexer::new(l), oak_hlsl::HlslParser::new(l))));
    }
    {
        let l: &'static oak_html::HtmlLanguage = leak(<oak_html::HtmlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_html::HtmlLanguage, _, _>::new("html", oak_html::HtmlLexer::new(l), oak_html::HtmlParser::new(l.clone()))));
    }
    {
        let l: &'static oak_idl::IdlLanguage = leak(<oak_idl::IdlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_idl::IdlLanguage, _, _>::new("idl", oak_idl::IdlLexer::new(l), oak_idl::IdlParser::new(l))));
    }
    {
        let l: &'static oak_ini::IniLanguage = leak(<oak_ini::IniLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_ini::IniLanguage, _, _>::new("ini", oak_ini::IniLexer::new(l), oak_ini::IniParser::new(l))));
    }
    {
        let l: &'static oak_j::JLanguage = leak(<oak_j::JLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_j::JLanguage, _, _>::new("j", oak_j::JLexer::new(l), oak_j::JParser::new(l))));
    }
    {
        let l: &'static oak_jasm::JasmLanguage = leak(<oak_jasm::JasmLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_jasm::JasmLanguage, _, _>::new("jasm", oak_jasm::JasmLexer::new(l), oak_jasm::JasmParser::new(l))));
    }
    {
        let l: &'static oak_jasmin::JasminLanguage = leak(<oak_jasmin::JasminLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_jasmin::JasminLanguage, _, _>::new("jasmin", oak_jasmin::JasminLexer::new(l), oak_jasmin::JasminParser::new(l))));
    }
    {
        let l: &'static oak_java::JavaLanguage = leak(<oak_java::JavaLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_java::JavaLanguage, _, _>::new("java", oak_java::JavaLexer::new(l), oak_java::JavaParser::new(l))));
    }
    {
        let l: &'static oak_javadoc::JavadocLanguage = leak(<oak_javadoc::JavadocLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_javadoc::JavadocLanguage, _, _>::new("javadoc", oak_javadoc::JavadocLexer::new(l), oak_javadoc::JavadocParser::new(l))));
    }
    {
        let l: &'static oak_javascript::language::JavaScriptLanguage = leak(<oak_javascript::language::JavaScriptLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_javascript::language::JavaScriptLanguage, _, _>::new("javascript", oak_javascript::lexer::JavaScriptLexer::new(l), oak_javascript::parser::JavaScriptParser::new(l))));
    }
    {
        let l: &'static oak_json::JsonLanguage = leak(<oak_json::JsonLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_json::JsonLanguage, _, _>::new("json", oak_json::JsonLexer::new(l), oak_json::JsonParser::new(l))));
    }
    {
        let l: &'static oak_julia::JuliaLanguage = leak(<oak_julia::JuliaLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_julia::JuliaLanguage, _, _>::new("julia", oak_julia::JuliaLexer::new(l), oak_julia::JuliaParser::new(l))));
    }
    {
        let l: &'static oak_kotlin::KotlinLanguage = leak(<oak_kotlin::KotlinLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_kotlin::KotlinLanguage, _, _>::new("kotlin", oak_kotlin::KotlinLexer::new(l), oak_kotlin::parser::KotlinParser::new(l))));
    }
    {
        let l: &'static oak_lean::LeanLanguage = leak(<oak_lean::LeanLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_lean::LeanLanguage, _, _>::new("lean", oak_lean::LeanLexer::new(l), oak_lean::LeanParser::new(l))));
    }
    {
        let l: &'static oak_llvm_ir::LLvmLanguage = leak(<oak_llvm_ir::LLvmLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_llvm_ir::LLvmLanguage, _, _>::new("llvm-ir", oak_llvm_ir::LLvmLexer::new(l), oak_llvm_ir::LLirParser::new(l))));
    }
    {
        let l: &'static oak_lua::LuaLanguage = leak(<oak_lua::LuaLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_lua::LuaLanguage, _, _>::new("lua", oak_lua::LuaLexer::new(l), oak_lua::LuaParser::new(l))));
    }
    {
        let l: &'static oak_markdown::MarkdownLanguage = leak(<oak_markdown::MarkdownLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_markdown::MarkdownLanguage, _, _>::new("markdown", oak_markdown::MarkdownLexer::new(l), oak_markdown::MarkdownParser::new(l))));
    }
    {
        let l: &'static oak_matlab::MatlabLanguage = leak(<oak_matlab::MatlabLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_matlab::MatlabLanguage, _, _>::new("matlab", oak_matlab::MatlabLexer::new(l), oak_matlab::MatlabParser::new(l))));
    }
    {
        let l: &'static oak_mermaid::MermaidLanguage = leak(<oak_mermaid::MermaidLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_mermaid::MermaidLanguage, _, _>::new("mermaid", oak_mermaid::MermaidLexer::new(l), oak_mermaid::MermaidParser::new(l))));
    }
    {
        let _l: &'static oak_mojo::MojoLanguage = leak(<oak_mojo::MojoLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_mojo::MojoLanguage, _, _>::new("mojo", oak_mojo::lexer::MojoLexer::new(), oak_mojo::parser::MojoParser::new())));
    }
    {
        let l: &'static oak_msil::MsilLanguage = leak(<oak_msil::MsilLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_msil::MsilLanguage, _, _>::new("msil", oak_msil::MsilLexer::new(l), oak_msil::MsilParser::new(l))));
    }
    {
        let l: &'static oak_nginx::NginxLanguage = leak(<oak_nginx::NginxLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_nginx::NginxLanguage, _, _>::new("nginx", oak_nginx::NginxLexer::new(l), oak_nginx::NginxParser::new(l))));
    }
    {
        let l: &'static oak_nim::NimLanguage = leak(<oak_nim::NimLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_nim::NimLanguage, _, _>::new("nim", oak_nim::NimLexer::new(l), oak_nim::NimParser::new(l))));
    }
    {
        let l: &'static oak_nix::NixLanguage = leak(<oak_nix::NixLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_nix::NixLanguage, _, _>::new("nix", oak_nix::NixLexer::new(l), oak_nix::NixParser::new(l))));
    }
    {
        let l: &'static oak_notedown::language::NotedownLanguage = leak(<oak_notedown::language::NotedownLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_notedown::language::NotedownLanguage, _, _>::new("notedown", oak_notedown::lexer::NotedownLexer::new(l), oak_notedown::NoteParser::new(l))));
    }
    {
        let l: &'static oak_objective_c::ObjectiveCLanguage = leak(<oak_objective_c::ObjectiveCLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_objective_c::ObjectiveCLanguage, _, _>::new("objective-c", oak_objective_c::ObjectiveCLexer::new(l), oak_objective_c::ObjectiveCParser::new(l))));
    }
    {
        let l: &'static oak_ocaml::OCamlLanguage = leak(<oak_ocaml::OCamlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_ocaml::OCamlLanguage, _, _>::new("ocaml", oak_ocaml::OCamlLexer::new(l), oak_ocaml::OCamlParser::new(l))));
    }
    {
        let l: &'static oak_org_mode::OrgModeLanguage = leak(<oak_org_mode::OrgModeLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_org_mode::OrgModeLanguage, _, _>::new("org-mode", oak_org_mode::OrgModeLexer::new(l), oak_org_mode::OrgModeParser::new(l))));
    }
    {
        let l: &'static oak_pascal::PascalLanguage = leak(<oak_pascal::PascalLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_pascal::PascalLanguage, _, _>::new("pascal", oak_pascal::PascalLexer::new(l), oak_pascal::PascalParser::new(l))));
    }
    {
        let l: &'static oak_perl::PerlLanguage = leak(<oak_perl::PerlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_perl::PerlLanguage, _, _>::new("perl", oak_perl::PerlLexer::new(l), oak_perl::PerlParser::new(l))));
    }
    {
        let l: &'static oak_php::PhpLanguage = leak(<oak_php::PhpLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_php::PhpLanguage, _, _>::new("php", oak_php::PhpLexer::new(l), oak_php::PhpParser::new(l))));
    }
    {
        let l: &'static oak_powershell::PowerShellLanguage = leak(<oak_powershell::PowerShellLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_powershell::PowerShellLanguage, _, _>::new("powershell", oak_powershell::lexer::PowerShellLexer::new(l), oak_powershell::PowerShellParser::new(l))));
    }
    {
        let l: &'static oak_prolog::PrologLanguage = leak(<oak_prolog::PrologLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_prolog::PrologLanguage, _, _>::new("prolog", oak_prolog::lexer::PrologLexer::new(l), oak_prolog::PrologParser::new(l.clone()))));
    }
    {
        let l: &'static oak_protobuf::ProtobufLanguage = leak(<oak_protobuf::ProtobufLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_protobuf::ProtobufLanguage, _, _>::new("protobuf", oak_protobuf::lexer::ProtobufLexer::new(l), oak_protobuf::ProtobufParser::new(l))));
    }
    {
        let l: &'static oak_purescript::PurescriptLanguage = leak(<oak_purescript::PurescriptLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_purescript::PurescriptLanguage, _, _>::new("purescript", oak_purescript::PurescriptLexer::new(l), oak_purescript::PurescriptParser::new(l))));
    }
    {
        let l: &'static oak_python::PythonLanguage = leak(<oak_python::PythonLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_python::PythonLanguage, _, _>::new("python", oak_python::PythonLexer::new(l), oak_python::PythonParser::new(l))));
    }
    {
        let l: &'static oak_r::RLanguage = leak(<oak_r::RLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_r::RLanguage, _, _>::new("r", oak_r::RLexer::new(l), oak_r::RParser::new(l))));
    }
    {
        let l: &'static oak_raku::RakuLanguage = leak(<oak_raku::RakuLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_raku::RakuLanguage, _, _>::new("raku", oak_raku::RakuLexer::new(), oak_raku::RakuParser::new(l.clone()))));
    }
    {
        let l: &'static oak_rbq::RbqLanguage = leak(<oak_rbq::RbqLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_rbq::RbqLanguage, _, _>::new("rbq", oak_rbq::RbqLexer::new(l), oak_rbq::RbqParser::new(l))));
    }
    {
        let l: &'static oak_regex::RegexLanguage = leak(<oak_regex::RegexLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_regex::RegexLanguage, _, _>::new("regex", oak_regex::RegexLexer::new(l), oak_regex::RegexParser::new(l))));
    }
    {
        let l: &'static oak_ruby::RubyLanguage = leak(<oak_ruby::RubyLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_ruby::RubyLanguage, _, _>::new("ruby", oak_ruby::RubyLexer::new(l), oak_ruby::RubyParser::new(l))));
    }
    {
        let l: &'static oak_rust::RustLanguage = leak(<oak_rust::RustLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_rust::RustLanguage, _, _>::new("rust", oak_rust::RustLexer::new(l), oak_rust::RustParser::new(l))));
    }
    {
        let l: &'static oak_sass::SassLanguage = leak(<oak_sass::SassLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_sass::SassLanguage, _, _>::new("sass", oak_sass::SassLexer::new(l), oak_sass::SassParser::new(l))));
    }
    {
        let l: &'static oak_scala::ScalaLanguage = leak(<oak_scala::ScalaLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_scala::ScalaLanguage, _, _>::new("scala", oak_scala::ScalaLexer::new(l), oak_scala::ScalaParser::new(l))));
    }
    {
        let l: &'static oak_scheme::SchemeLanguage = leak(<oak_scheme::SchemeLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_scheme::SchemeLanguage, _, _>::new("scheme", oak_scheme::SchemeLexer::new(l), oak_scheme::SchemeParser::new(l))));
    }
    {
        let l: &'static oak_scss::ScssLanguage = leak(<oak_scss::ScssLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_scss::ScssLanguage, _, _>::new("scss", oak_scss::ScssLexer::new(l), oak_scss::ScssParser::new(l))));
    }
    {
        let l: &'static oak_smalltalk::SmalltalkLanguage = leak(<oak_smalltalk::SmalltalkLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_smalltalk::SmalltalkLanguage, _, _>::new("smalltalk", oak_smalltalk::SmalltalkLexer::new(l), oak_smalltalk::SmalltalkParser::new(l))));
    }
    {
        let l: &'static oak_solidity::SolidityLanguage = leak(<oak_solidity::SolidityLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_solidity::SolidityLanguage, _, _>::new("solidity", oak_solidity::SolidityLexer::new(l), oak_solidity::SolidityParser::new(l))));
    }
    {
        let l: &'static oak_sql::SqlLanguage = leak(<oak_sql::SqlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_sql::SqlLanguage, _, _>::new("sql", oak_sql::SqlLexer::new(l), oak_sql::SqlParser::new(l))));
    }
    {
        let l: &'static oak_stylus::StylusLanguage = leak(<oak_stylus::StylusLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_stylus::StylusLanguage, _, _>::new("stylus", oak_stylus::StylusLexer::new(l), oak_stylus::StylusParser::new(l))));
    }
    {
        let l: &'static oak_svelte::SvelteLanguage = leak(<oak_svelte::SvelteLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_svelte::SvelteLanguage, _, _>::new("svelte", oak_svelte::SvelteLexer::new(l), oak_svelte::SvelteParser::new(l))));
    }
    {
        let l: &'static oak_swift::SwiftLanguage = leak(<oak_swift::SwiftLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_swift::SwiftLanguage, _, _>::new("swift", oak_swift::SwiftLexer::new(l), oak_swift::SwiftParser::new(l))));
    }
    {
        let l: &'static oak_tailwind::TailwindLanguage = leak(<oak_tailwind::TailwindLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_tailwind::TailwindLanguage, _, _>::new("tailwind", oak_tailwind::TailwindLexer::new(l), oak_tailwind::TailwindParser::new(l))));
    }
    {
        let l: &'static oak_tcl::TclLanguage = leak(<oak_tcl::TclLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_tcl::TclLanguage, _, _>::new("tcl", oak_tcl::TclLexer::new(l), oak_tcl::TclParser::new(l))));
    }
    {
        let l: &'static oak_tex::TexLanguage = leak(<oak_tex::TexLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_tex::TexLanguage, _, _>::new("tex", oak_tex::TexLexer::new(l), oak_tex::TexParser::new(l))));
    }
    {
        let l: &'static oak_toml::TomlLanguage = leak(<oak_toml::TomlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_toml::TomlLanguage, _, _>::new("toml", oak_toml::TomlLexer::new(l), oak_toml::TomlParser::new(l))));
    }
    {
        let l: &'static oak_twig::TwigLanguage = leak(<oak_twig::TwigLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_twig::TwigLanguage, _, _>::new("twig", oak_twig::TwigLexer::new(l), oak_twig::TwigParser::new(l))));
    }
    {
        let l: &'static oak_typescript::TypeScriptLanguage = leak(<oak_typescript::TypeScriptLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_typescript::TypeScriptLanguage, _, _>::new("typescript", oak_typescript::TypeScriptLexer::new(l), oak_typescript::TypeScriptParser::new(l))));
    }
    {
        let l: &'static oak_typst::TypstLanguage = leak(<oak_typst::TypstLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_typst::TypstLanguage, _, _>::new("typst", oak_typst::TypstLexer::new(l), oak_typst::TypstParser::new(l))));
    }
    {
        let l: &'static oak_vala::ValaLanguage = leak(<oak_vala::ValaLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_vala::ValaLanguage, _, _>::new("vala", oak_vala::ValaLexer::new(l), oak_vala::ValaParser::new(l))));
    }
    {
        let l: &'static oak_valkyrie::ValkyrieLanguage = leak(<oak_valkyrie::ValkyrieLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_valkyrie::ValkyrieLanguage, _, _>::new("valkyrie", oak_valkyrie::ValkyrieLexer::new(l), oak_valkyrie::ValkyrieParser::new(l))));
    }
    {
        let l: &'static oak_vampire::VampireLanguage = leak(<oak_vampire::VampireLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_vampire::VampireLanguage, _, _>::new("vampire", oak_vampire::VampireLexer::new(l), oak_vampire::VampireParser::new(l))));
    }
    {
        let l: &'static oak_verilog::VerilogLanguage = leak(<oak_verilog::VerilogLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_verilog::VerilogLanguage, _, _>::new("verilog", oak_verilog::VerilogLexer::new(l), oak_verilog::VerilogParser::new(l))));
    }
    {
        let l: &'static oak_vhdl::VhdlLanguage = leak(<oak_vhdl::VhdlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_vhdl::VhdlLanguage, _, _>::new("vhdl", oak_vhdl::VhdlLexer::new(l), oak_vhdl::VhdlParser::new(l))));
    }
    {
        let l: &'static oak_vlang::VLangLanguage = leak(<oak_vlang::VLangLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_vlang::VLangLanguage, _, _>::new("vlang", oak_vlang::VLangLexer::new(l), oak_vlang::VLangParser::new(l))));
    }
    {
        let l: &'static oak_voc::VocLanguage = leak(<oak_voc::VocLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_voc::VocLanguage, _, _>::new("voc", oak_voc::VocLexer::new(l), oak_voc::VocParser::new(l))));
    }
    {
        let l: &'static oak_voml::VomlLanguage = leak(<oak_voml::VomlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_voml::VomlLanguage, _, _>::new("voml", oak_voml::VomlLexer::new(l), oak_voml::VomlParser::new(l))));
    }
    {
        let l: &'static oak_von::VonLanguage = leak(<oak_von::VonLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_von::VonLanguage, _, _>::new("von", oak_von::VonLexer::new(l), oak_von::VonParser::new(l))));
    }
    {
        let l: &'static oak_wat::WatLanguage = leak(<oak_wat::WatLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_wat::WatLanguage, _, _>::new("wat", oak_wat::WatLexer::new(l), oak_wat::WatParser::new(l))));
    }
    {
        let l: &'static oak_wgsl::WgslLanguage = leak(<oak_wgsl::WgslLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_wgsl::WgslLanguage, _, _>::new("wgsl", oak_wgsl::WgslLexer::new(l), oak_wgsl::WgslParser::new(l))));
    }
    {
        let l: &'static oak_wit::WitLanguage = leak(<oak_wit::WitLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_wit::WitLanguage, _, _>::new("wit-component", oak_wit::WitLexer::new(l), oak_wit::WitParser::new(l))));
    }
    {
        let l: &'static oak_wolfram::WolframLanguage = leak(<oak_wolfram::WolframLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_wolfram::WolframLanguage, _, _>::new("wolfram", oak_wolfram::WolframLexer::new(l), oak_wolfram::WolframParser::new(l))));
    }
    {
        let l: &'static oak_xml::XmlLanguage = leak(<oak_xml::XmlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_xml::XmlLanguage, _, _>::new("xml", oak_xml::XmlLexer::new(l), oak_xml::XmlParser::new(l))));
    }
    {
        let l: &'static oak_yaml::YamlLanguage = leak(<oak_yaml::YamlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_yaml::YamlLanguage, _, _>::new("yaml", oak_yaml::YamlLexer::new(l), oak_yaml::YamlParser::new(l))));
    }
    {
        let l: &'static oak_zig::ZigLanguage = leak(<oak_zig::ZigLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_zig::ZigLanguage, _, _>::new("zig", oak_zig::ZigLexer::new(l), oak_zig::ZigParser::new(l))));
    }
    v
}
