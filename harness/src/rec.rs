//! A converter that reports every call it gets.

use crate::shape::{sp, Shape};
use oracle::tree::{Pos, Tree};
use scilla_parser::ast::converting::AstConverting;
use scilla_parser::ast::nodes::*;
use scilla_parser::ast::{TraversalResult, TreeTraversalMode};
use scilla_parser::parser::lexer::SourcePosition;

pub enum Act {
    Continue,
    Skip,
    Fail(String),
}

pub trait Watch {
    fn event(&mut self, ty: &'static str, enter: bool, ptr: usize, node: &dyn Shape) -> Act;
    fn push(&mut self, start: Pos, end: Pos);
    fn pop(&mut self);
}

pub struct Rec<'w>(pub &'w mut dyn Watch);

macro_rules! emits {
    ($($f:ident $n:ident $s:literal;)*) => {
        impl<'w> AstConverting for Rec<'w> {
            fn push_source_position(&mut self, start: &SourcePosition, end: &SourcePosition) {
                self.0.push(sp(start), sp(end))
            }
            fn pop_source_position(&mut self) {
                self.0.pop()
            }
            $(
                fn $f(&mut self, mode: TreeTraversalMode, node: &$n) -> Result<TraversalResult, String> {
                    let enter = matches!(mode, TreeTraversalMode::Enter);
                    match self.0.event($s, enter, node as *const _ as *const u8 as usize, node) {
                        Act::Continue => Ok(TraversalResult::Continue),
                        Act::Skip => Ok(TraversalResult::SkipChildren),
                        Act::Fail(m) => Err(m),
                    }
                }
            )*
        }
        pub const NODE_TYPES: &[&str] = &[$($s),*];
    };
}
emits! {
    emit_byte_str NodeByteStr "ByteStr";
    emit_type_name_identifier NodeTypeNameIdentifier "TypeNameIdentifier";
    emit_imported_name NodeImportedName "ImportedName";
    emit_import_declarations NodeImportDeclarations "ImportDeclarations";
    emit_meta_identifier NodeMetaIdentifier "MetaIdentifier";
    emit_variable_identifier NodeVariableIdentifier "VariableIdentifier";
    emit_builtin_arguments NodeBuiltinArguments "BuiltinArguments";
    emit_type_map_key NodeTypeMapKey "TypeMapKey";
    emit_type_map_value NodeTypeMapValue "TypeMapValue";
    emit_type_argument NodeTypeArgument "TypeArgument";
    emit_scilla_type NodeScillaType "ScillaType";
    emit_type_map_entry NodeTypeMapEntry "TypeMapEntry";
    emit_address_type_field NodeAddressTypeField "AddressTypeField";
    emit_address_type NodeAddressType "AddressType";
    emit_full_expression NodeFullExpression "FullExpression";
    emit_message_entry NodeMessageEntry "MessageEntry";
    emit_pattern_match_expression_clause NodePatternMatchExpressionClause "PatternMatchExpressionClause";
    emit_atomic_expression NodeAtomicExpression "AtomicExpression";
    emit_contract_type_arguments NodeContractTypeArguments "ContractTypeArguments";
    emit_value_literal NodeValueLiteral "ValueLiteral";
    emit_map_access NodeMapAccess "MapAccess";
    emit_pattern NodePattern "Pattern";
    emit_argument_pattern NodeArgumentPattern "ArgumentPattern";
    emit_pattern_match_clause NodePatternMatchClause "PatternMatchClause";
    emit_blockchain_fetch_arguments NodeBlockchainFetchArguments "BlockchainFetchArguments";
    emit_statement NodeStatement "Statement";
    emit_remote_fetch_statement NodeRemoteFetchStatement "RemoteFetchStatement";
    emit_component_id NodeComponentId "ComponentId";
    emit_component_parameters NodeComponentParameters "ComponentParameters";
    emit_parameter_pair NodeParameterPair "ParameterPair";
    emit_component_body NodeComponentBody "ComponentBody";
    emit_statement_block NodeStatementBlock "StatementBlock";
    emit_typed_identifier NodeTypedIdentifier "TypedIdentifier";
    emit_type_annotation NodeTypeAnnotation "TypeAnnotation";
    emit_program NodeProgram "Program";
    emit_library_definition NodeLibraryDefinition "LibraryDefinition";
    emit_library_single_definition NodeLibrarySingleDefinition "LibrarySingleDefinition";
    emit_contract_definition NodeContractDefinition "ContractDefinition";
    emit_contract_field NodeContractField "ContractField";
    emit_with_constraint NodeWithConstraint "WithConstraint";
    emit_component_definition NodeComponentDefinition "ComponentDefinition";
    emit_procedure_definition NodeProcedureDefinition "ProcedureDefinition";
    emit_transition_definition NodeTransitionDefinition "TransitionDefinition";
    emit_type_alternative_clause NodeTypeAlternativeClause "TypeAlternativeClause";
    emit_type_map_value_arguments NodeTypeMapValueArguments "TypeMapValueArguments";
    emit_type_map_value_allowing_type_arguments NodeTypeMapValueAllowingTypeArguments "TypeMapValueAllowingTypeArguments";
}

/// The events a complete walk of a forest must give: (node, enter), and for every enter the index of its exit.
pub struct Script<'t> {
    pub nodes: Vec<&'t Tree>,
    pub steps: Vec<(usize, bool, usize)>,
}

pub fn script(forest: &[Tree]) -> Script<'_> {
    fn go<'t>(t: &'t Tree, s: &mut Script<'t>) {
        if t.is_leaf() {
            return;
        }
        let n = s.nodes.len();
        s.nodes.push(t);
        let at = s.steps.len();
        s.steps.push((n, true, 0));
        for c in &t.ch {
            go(c, s);
        }
        s.steps[at].2 = s.steps.len();
        s.steps.push((n, false, at));
    }
    let mut s = Script { nodes: vec![], steps: vec![] };
    for t in forest {
        go(t, &mut s);
    }
    s
}

pub fn show(t: &Tree) -> String {
    let mut s = String::new();
    t.render(&mut s, 0, true);
    crate::core::clip(&s.replace('\n', " / "), 300)
}
