// One entry per shipped language with a builder of typed trees (examples/*).
use crate::build::{Api, Entry};

fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

pub fn table() -> Vec<Box<dyn Api>> {
    let mut v: Vec<Box<dyn Api>> = vec![];
    {
        let l: &'static oak_actionscript::ActionScriptLanguage = leak(<oak_actionscript::ActionScriptLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_actionscript::ActionScriptLanguage, _>::new("actionscript", oak_actionscript::ActionScriptBuilder::new(l))));
    }
    {
        let l: &'static oak_ada::AdaLanguage = leak(<oak_ada::AdaLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_ada::AdaLanguage, _>::new("ada", oak_ada::builder::AdaBuilder::new(l))));
    }
    {
        let l: &'static oak_apl::AplLanguage = leak(<oak_apl::AplLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_apl::AplLanguage, _>::new("apl", oak_apl::builder::AplBuilder::new(l))));
    }
    {
        let l: &'static oak_bash::BashLanguage = leak(<oak_bash::BashLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_bash::BashLanguage, _>::new("bash", oak_bash::builder::BashBuilder::new(l))));
    }
    {
        let l: &'static oak_bat::language::BatLanguage = leak(<oak_bat::language::BatLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_bat::language::BatLanguage, _>::new("bat", oak_bat::builder::BatBuilder::new(l))));
    }
    {
        let l: &'static oak_c::language::CLanguage = leak(<oak_c::language::CLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_c::language::CLanguage, _>::new("c", oak_c::builder::CBuilder::new(l))));
    }
    {
        let l: &'static oak_cmd::language::CmdLanguage = leak(<oak_cmd::language::CmdLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_cmd::language::CmdLanguage, _>::new("cmd", oak_cmd::builder::CmdBuilder::new(l))));
    }
    {
        let l: &'static oak_cobol::CobolLanguage = leak(<oak_cobol::CobolLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_cobol::CobolLanguage, _>::new("cobol", oak_cobol::builder::CobolBuilder::new(l))));
    }
    {
        let l: &'static oak_coq::CoqLanguage = leak(<oak_coq::CoqLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_coq::CoqLanguage, _>::new("coq", oak_coq::builder::CoqBuilder::new(l))));
    }
    {
        let l: &'static oak_csharp::CSharpLanguage = leak(<oak_csharp::CSharpLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_csharp::CSharpLanguage, _>::new("csharp", oak_csharp::builder::CSharpBuilder::new(l))));
    }
    {
        let l: &'static oak_d::DLanguage = leak(<oak_d::DLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_d::DLanguage, _>::new("d", oak_d::builder::DBuilder::new(l))));
    }
    {
        let l: &'static oak_dart::DartLanguage = leak(<oak_dart::DartLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_dart::DartLanguage, _>::new("dart", oak_dart::builder::DartBuilder::new(l))));
    }
    {
        let l: &'static oak_dejavu::DejavuLanguage = leak(<oak_dejavu::DejavuLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_dejavu::DejavuLanguage, _>::new("dejavu", oak_dejavu::builder::DejavuBuilder::new(l))));
    }
    {
        let l: &'static oak_delphi::DelphiLanguage = leak(<oak_delphi::DelphiLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_delphi::DelphiLanguage, _>::new("delphi", oak_delphi::DelphiBuilder::new(<oak_delphi::DelphiLanguage as Default>::default()))));
    }
    {
        let l: &'static oak_dhall::DHallLanguage = leak(<oak_dhall::DHallLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_dhall::DHallLanguage, _>::new("dhall", oak_dhall::builder::DHallBuilder::new(l))));
    }
    {
        let l: &'static oak_dot::DotLanguage = leak(<oak_dot::DotLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_dot::DotLanguage, _>::new("dot", oak_dot::builder::DotBuilder::new(l))));
    }
    {
        let l: &'static oak_elixir::ElixirLanguage = leak(<oak_elixir::ElixirLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_elixir::ElixirLanguage, _>::new("elixir", oak_elixir::builder::ElixirBuilder::new(l))));
    }
    {
        let l: &'static oak_fortran::FortranLanguage = leak(<oak_fortran::FortranLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_fortran::FortranLanguage, _>::new("fortran", oak_fortran::builder::FortranBuilder::new(l))));
    }
    {
        let l: &'static oak_fsharp::FSharpLanguage = leak(<oak_fsharp::FSharpLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_fsharp::FSharpLanguage, _>::new("fsharp", oak_fsharp::builder::FSharpBuilder::new(l))));
    }
    {
        let l: &'static oak_go::GoLanguage = leak(<oak_go::GoLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_go::GoLanguage, _>::new("go", oak_go::builder::GoBuilder::new(l))));
    }
    {
        let l: &'static oak_gsgl::GsglLanguage = leak(<oak_gsgl::GsglLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_gsgl::GsglLanguage, _>::new("gsgl", oak_gsgl::builder::GsglBuilder::new(l))));
    }
    {
        let l: &'static oak_handlebars::HandlebarsLanguage = leak(<oak_handlebars::HandlebarsLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_handlebars::HandlebarsLanguage, _>::new("handlebars", oak_handlebars::builder::HandlebarsBuilder::new(l))));
    }
    {
        let l: &'static oak_haskell::HaskellLanguage = leak(<oak_haskell::HaskellLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_haskell::HaskellLanguage, _>::new("haskell", oak_haskell::builder::HaskellBuilder::new(l))));
    }
    {
        let l: &'static oak_hlsl::HlslLanguage = leak(<oak_hlsl::HlslLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_hlsl::HlslLanguage, _>::new("hlsl", oak_hlsl::builder::HlslBuilder::new(l))));
    }
    {
        let l: &'static oak_html::HtmlLanguage = leak(<oak_html::HtmlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_html::HtmlLanguage, _>::new("html", oak_html::builder::HtmlBuilder::new(<oak_html::HtmlLanguage as Default>::default()))));
    }
    {
        let l: &'static oak_idl::IdlLanguage = leak(<oak_idl::IdlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_idl::IdlLanguage, _>::new("idl", oak_idl::builder::IdlBuilder::new(l))));
    }
    {
        let l: &'static oak_ini::IniLanguage = leak(<oak_ini::IniLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_ini::IniLanguage, _>::new("ini", oak_ini::builder::IniBuilder::new(l))));
    }
    {
        let l: &'static oak_j::JLanguage = leak(<oak_j::JLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_j::JLanguage, _>::new("j", oak_j::builder::JBuilder::new(l))));
    }
    {
        let l: &'static oak_jasm::JasmLanguage = leak(<oak_jasm::JasmLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_jasm::JasmLanguage, _>::new("jasm", oak_jasm::builder::JasmBuilder::new(l))));
    }
    {
        let l: &'static oak_jasmin::JasminLanguage = leak(<oak_jasmin::JasminLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_jasmin::JasminLanguage, _>::new("jasmin", oak_jasmin::builder::JasminBuilder::new(l))));
    }
    {
        let l: &'static oak_java::JavaLanguage = leak(<oak_java::JavaLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_java::JavaLanguage, _>::new("java", oak_java::builder::JavaBuilder::new(l))));
    }
    {
        let l: &'static oak_javadoc::JavadocLanguage = leak(<oak_javadoc::JavadocLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_javadoc::JavadocLanguage, _>::new("javadoc", oak_javadoc::JavadocBuilder { config: Default::default() })));
    }
    {
        let l: &'static oak_json::JsonLanguage = leak(<oak_json::JsonLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_json::JsonLanguage, _>::new("json", oak_json::builder::JsonBuilder::new(l))));
    }
    {
        let l: &'static oak_julia::JuliaLanguage = leak(<oak_julia::JuliaLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_julia::JuliaLanguage, _>::new("julia", oak_julia::builder::JuliaBuilder::new(l))));
    }
    {
        let l: &'static oak_kotlin::KotlinLanguage = leak(<oak_kotlin::KotlinLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_kotlin::KotlinLanguage, _>::new("kotlin", oak_kotlin::builder::KotlinBuilder::new(l))));
    }
    {
        let l: &'static oak_lean::LeanLanguage = leak(<oak_lean::LeanLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_lean::LeanLanguage, _>::new("lean", oak_lean::builder::LeanBuilder::new(l))));
    }
    {
        let l: &'static oak_llvm_ir::LLvmLanguage = leak(<oak_llvm_ir::LLvmLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_llvm_ir::LLvmLanguage, _>::new("llvm-ir", oak_llvm_ir::LLirBuilder::new(l))));
    }
    {
        let l: &'static oak_lua::LuaLanguage = leak(<oak_lua::LuaLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_lua::LuaLanguage, _>::new("lua", oak_lua::builder::LuaBuilder::new(l))));
    }
    {
        let l: &'static oak_markdown::MarkdownLanguage = leak(<oak_markdown::MarkdownLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_markdown::MarkdownLanguage, _>::new("markdown", oak_markdown::builder::MarkdownBuilder::new(l))));
    }
    {
        let l: &'static oak_matlab::MatlabLanguage = leak(<oak_matlab::MatlabLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_matlab::MatlabLanguage, _>::new("matlab", oak_matlab::builder::MatlabBuilder::new(l))));
    }
    {
        let l: &'static oak_mermaid::MermaidLanguage = leak(<oak_mermaid::MermaidLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_mermaid::MermaidLanguage, _>::new("mermaid", oak_mermaid::builder::MermaidBuilder::new(l))));
    }
    {
        let l: &'static oak_msil::MsilLanguage = leak(<oak_msil::MsilLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_msil::MsilLanguage, _>::new("msil", oak_msil::builder::MsilBuilder::new(l))));
    }
    {
        let l: &'static oak_nginx::NginxLanguage = leak(<oak_nginx::NginxLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_nginx::NginxLanguage, _>::new("nginx", oak_nginx::builder::NginxBuilder::new(l))));
    }
    {
        let l: &'static oak_nim::NimLanguage = leak(<oak_nim::NimLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_nim::NimLanguage, _>::new("nim", oak_nim::builder::NimBuilder::new(l))));
    }
    {
        let l: &'static oak_nix::NixLanguage = leak(<oak_nix::NixLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_nix::NixLanguage, _>::new("nix", oak_nix::builder::NixBuilder::new(l))));
    }
    {
        let l: &'static oak_objective_c::ObjectiveCLanguage = leak(<oak_objective_c::ObjectiveCLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_objective_c::ObjectiveCLanguage, _>::new("objective-c", oak_objective_c::builder::ObjectiveCBuilder::new(l))));
    }
    {
        let l: &'static oak_ocaml::OCamlLanguage = leak(<oak_ocaml::OCamlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_ocaml::OCamlLanguage, _>::new("ocaml", oak_ocaml::builder::OCamlBuilder::new(l))));
    }
    {
        let l: &'static oak_org_mode::OrgModeLanguage = leak(<oak_org_mode::OrgModeLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_org_mode::OrgModeLanguage, _>::new("org-mode", oak_org_mode::builder::OrgModeBuilder::new(l))));
    }
    {
        let l: &'static oak_pascal::PascalLanguage = leak(<oak_pascal::PascalLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_pascal::PascalLanguage, _>::new("pascal", oak_pascal::builder::PascalBuilder::new(l))));
    }
    {
        let l: &'static oak_perl::PerlLanguage = leak(<oak_perl::PerlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_perl::PerlLanguage, _>::new("perl", oak_perl::builder::PerlBuilder::new(l))));
    }
    {
        let l: &'static oak_php::PhpLanguage = leak(<oak_php::PhpLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_php::PhpLanguage, _>::new("php", oak_php::builder::PhpBuilder::new(l))));
    }
    {
        let l: &'static oak_powershell::PowerShellLanguage = leak(<oak_powershell::PowerShellLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_powershell::PowerShellLanguage, _>::new("powershell", oak_powershell::builder::PowerShellBuilder::new(l))));
    }
    {
        let l: &'static oak_prolog::PrologLanguage = leak(<oak_prolog::PrologLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_prolog::PrologLanguage, _>::new("prolog", oak_prolog::builder::PrologBuilder::new(<oak_prolog::PrologLanguage as Default>::default()))));
    }
    {
        let l: &'static oak_protobuf::ProtobufLanguage = leak(<oak_protobuf::ProtobufLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_protobuf::ProtobufLanguage, _>::new("protobuf", oak_protobuf::builder::ProtobufBuilder::new(l))));
    }
    {
        let l: &'static oak_python::PythonLanguage = leak(<oak_python::PythonLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_python::PythonLanguage, _>::new("python", oak_python::builder::PythonBuilder::new(l))));
    }
    {
        let l: &'static oak_r::RLanguage = leak(<oak_r::RLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_r::RLanguage, _>::new("r", oak_r::builder::RBuilder::new(l))));
    }
    {
        let l: &'static oak_raku::RakuLanguage = leak(<oak_raku::RakuLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_raku::RakuLanguage, _>::new("raku", oak_raku::builder::RakuBuilder::new(<oak_raku::RakuLanguage as Default>::default()))));
    }
    {
        let l: &'static oak_rbq::RbqLanguage = leak(<oak_rbq::RbqLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_rbq::RbqLanguage, _>::new("rbq", oak_rbq::builder::RbqBuilder::new(l))));
    }
    {
        let l: &'static oak_regex::RegexLanguage = leak(<oak_regex::RegexLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_regex::RegexLanguage, _>::new("regex", oak_regex::builder::RegexBuilder::new(l))));
    }
    {
        let l: &'static oak_ruby::RubyLanguage = leak(<oak_ruby::RubyLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_ruby::RubyLanguage, _>::new("ruby", oak_ruby::builder::RubyBuilder::new(l))));
    }
    {
        let l: &'static oak_rust::RustLanguage = leak(<oak_rust::RustLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_rust::RustLanguage, _>::new("rust", oak_rust::builder::RustBuilder::new(l))));
    }
    {
        let l: &'static oak_sass::SassLanguage = leak(<oak_sass::SassLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_sass::SassLanguage, _>::new("sass", oak_sass::builder::SassBuilder::new(l))));
    }
    {
        let l: &'static oak_scala::ScalaLanguage = leak(<oak_scala::ScalaLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_scala::ScalaLanguage, _>::new("scala", oak_scala::builder::ScalaBuilder::new(l))));
    }
    {
        let l: &'static oak_scheme::SchemeLanguage = leak(<oak_scheme::SchemeLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_scheme::SchemeLanguage, _>::new("scheme", oak_scheme::SchemeBuilder::new(l))));
    }
    {
        let l: &'static oak_scss::ScssLanguage = leak(<oak_scss::ScssLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_scss::ScssLanguage, _>::new("scss", oak_scss::builder::ScssBuilder::new(l))));
    }
    {
        let l: &'static oak_smalltalk::SmalltalkLanguage = leak(<oak_smalltalk::SmalltalkLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_smalltalk::SmalltalkLanguage, _>::new("smalltalk", oak_smalltalk::SmalltalkBuilder::new(l))));
    }
    {
        let l: &'static oak_solidity::SolidityLanguage = leak(<oak_solidity::SolidityLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_solidity::SolidityLanguage, _>::new("solidity", oak_solidity::SolidityBuilder::new(l))));
    }
    {
        let l: &'static oak_sql::SqlLanguage = leak(<oak_sql::SqlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_sql::SqlLanguage, _>::new("sql", oak_sql::builder::SqlBuilder::new(l))));
    }
    {
        let l: &'static oak_stylus::StylusLanguage = leak(<oak_stylus::StylusLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_stylus::StylusLanguage, _>::new("stylus", oak_stylus::builder::StylusBuilder::new(l))));
    }
    {
        let l: &'static oak_swift::SwiftLanguage = leak(<oak_swift::SwiftLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_swift::SwiftLanguage, _>::new("swift", oak_swift::builder::SwiftBuilder::new(l))));
    }
    {
        let l: &'static oak_tailwind::TailwindLanguage = leak(<oak_tailwind::TailwindLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_tailwind::TailwindLanguage, _>::new("tailwind", oak_tailwind::TailwindBuilder::new(l))));
    }
    {
        let l: &'static oak_tcl::TclLanguage = leak(<oak_tcl::TclLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_tcl::TclLanguage, _>::new("tcl", oak_tcl::builder::TclBuilder::new(l))));
    }
    {
        let l: &'static oak_tex::TexLanguage = leak(<oak_tex::TexLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_tex::TexLanguage, _>::new("tex", oak_tex::builder::TexBuilder::new(l))));
    }
    {
        let l: &'static oak_toml::TomlLanguage = leak(<oak_toml::TomlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_toml::TomlLanguage, _>::new("toml", oak_toml::builder::TomlBuilder::new(l))));
    }
    {
        let l: &'static oak_twig::TwigLanguage = leak(<oak_twig::TwigLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_twig::TwigLanguage, _>::new("twig", oak_twig::builder::TwigBuilder::new(l))));
    }
    {
        let l: &'static oak_typescript::TypeScriptLanguage = leak(<oak_typescript::TypeScriptLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_typescript::TypeScriptLanguage, _>::new("typescript", oak_typescript::builder::TypeScriptBuilder::new(l))));
    }
    {
        let l: &'static oak_typst::TypstLanguage = leak(<oak_typst::TypstLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_typst::TypstLanguage, _>::new("typst", oak_typst::builder::TypstBuilder::new(l))));
    }
    {
        let l: &'static oak_vala::ValaLanguage = leak(<oak_vala::ValaLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_vala::ValaLanguage, _>::new("vala", oak_vala::builder::ValaBuilder::new(l))));
    }
    {
        let l: &'static oak_valkyrie::ValkyrieLanguage = leak(<oak_valkyrie::ValkyrieLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_valkyrie::ValkyrieLanguage, _>::new("valkyrie", oak_valkyrie::builder::ValkyrieBuilder::new(l))));
    }
    {
        let l: &'static oak_vampire::VampireLanguage = leak(<oak_vampire::VampireLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_vampire::VampireLanguage, _>::new("vampire", oak_vampire::VampireBuilder::new(l))));
    }
    {
        let l: &'static oak_von::VonLanguage = leak(<oak_von::VonLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_von::VonLanguage, _>::new("von", oak_von::builder::VonBuilder::new(l))));
    }
    {
        let l: &'static oak_wolfram::WolframLanguage = leak(<oak_wolfram::WolframLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_wolfram::WolframLanguage, _>::new("wolfram", oak_wolfram::WolframBuilder::new(l))));
    }
    {
        let l: &'static oak_xml::XmlLanguage = leak(<oak_xml::XmlLanguage as Default>::default());
        v.push(Box::new(Entry::<oak_xml::XmlLanguage, _>::new("xml", oak_xml::builder::XmlBuilder::new())));
    }
    v
}
