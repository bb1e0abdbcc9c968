//! Reading the real syntax tree into the neutral one.
#![allow(unreachable_patterns)]

use oracle::tree::{Pos, Tree, LEAF};
use scilla_parser::ast::nodes::*;
use scilla_parser::parser::lexer::SourcePosition;

pub fn sp(p: &SourcePosition) -> Pos {
    Pos { byte: p.position, line: p.line, col: p.column }
}

pub trait Shape {
    fn shape(&self) -> Tree;
    /// The node as it prints itself, if it can.
    fn printed(&self) -> Option<String> {
        None
    }
}

impl<T: Shape> Shape for WithMetaData<T> {
    fn shape(&self) -> Tree {
        let mut t = self.node.shape();
        t.span = Some((sp(&self.start), sp(&self.end)));
        t
    }
    fn printed(&self) -> Option<String> {
        self.node.printed()
    }
}
impl<T: Shape> Shape for Box<T> {
    fn shape(&self) -> Tree {
        (**self).shape()
    }
    fn printed(&self) -> Option<String> {
        (**self).printed()
    }
}
impl Shape for String {
    fn shape(&self) -> Tree {
        let mut t = Tree::leaf(self);
        t.kind = LEAF;
        t
    }
}

/// Children of several forms, in order.
trait Kids {
    fn kids(&self, out: &mut Vec<Tree>);
}
impl<T: Shape> Kids for T {
    fn kids(&self, out: &mut Vec<Tree>) {
        out.push(self.shape())
    }
}
struct L<'a, T>(&'a Vec<T>);
struct O<'a, T>(&'a Option<T>);
impl<'a, T: Shape> L<'a, T> {
    fn kids(&self, out: &mut Vec<Tree>) {
        for x in self.0 {
            out.push(x.shape())
        }
    }
}
impl<'a, T: Shape> O<'a, T> {
    fn kids(&self, out: &mut Vec<Tree>) {
        if let Some(x) = self.0 {
            out.push(x.shape())
        }
    }
}

macro_rules! node {
    ($self:expr, $kind:expr $(, $k:expr)*) => {{
        #[allow(unused_mut)]
        let mut ch: Vec<Tree> = vec![];
        $( $k.kids(&mut ch); )*
        let mut t = Tree::node($kind, ch);
        t.ptr = $self as *const _ as *const u8 as usize;
        t
    }};
}

impl Shape for NodeByteStr {
    fn printed(&self) -> Option<String> {
        Some(self.to_string())
    }
    fn shape(&self) -> Tree {
        match self {
            NodeByteStr::Constant(s) => node!(self, "ByteStr::Constant", s),
            NodeByteStr::Type(s) => node!(self, "ByteStr::Type", s),
            _ => node!(self, "ByteStr::?"),
        }
    }
}
impl Shape for NodeTypeNameIdentifier {
    fn printed(&self) -> Option<String> {
        Some(self.to_string())
    }
    fn shape(&self) -> Tree {
        use NodeTypeNameIdentifier::*;
        match self {
            ByteStringType(b) => node!(self, "TypeNameIdentifier::ByteStringType", b),
            EventType => node!(self, "TypeNameIdentifier::EventType"),
            TypeOrEnumLikeIdentifier(s) => node!(self, "TypeNameIdentifier::TypeOrEnumLikeIdentifier", s),
            _ => node!(self, "TypeNameIdentifier::?"),
        }
    }
}
impl Shape for NodeImportedName {
    fn shape(&self) -> Tree {
        use NodeImportedName::*;
        match self {
            RegularImport(a) => node!(self, "ImportedName::RegularImport", a),
            AliasedImport(a, b) => node!(self, "ImportedName::AliasedImport", a, b),
            _ => node!(self, "ImportedName::?"),
        }
    }
}
impl Shape for NodeImportDeclarations {
    fn shape(&self) -> Tree {
        node!(self, "ImportDeclarations", L(&self.import_list))
    }
}
impl Shape for NodeMetaIdentifier {
    fn printed(&self) -> Option<String> {
        Some(self.to_string())
    }
    fn shape(&self) -> Tree {
        use NodeMetaIdentifier::*;
        match self {
            MetaName(a) => node!(self, "MetaIdentifier::MetaName", a),
            MetaNameInNamespace(a, b) => node!(self, "MetaIdentifier::MetaNameInNamespace", a, b),
            MetaNameInHexspace(a, b) => node!(self, "MetaIdentifier::MetaNameInHexspace", a, b),
            ByteString => node!(self, "MetaIdentifier::ByteString"),
            _ => node!(self, "MetaIdentifier::?"),
        }
    }
}
impl Shape for NodeVariableIdentifier {
    fn printed(&self) -> Option<String> {
        Some(self.to_string())
    }
    fn shape(&self) -> Tree {
        use NodeVariableIdentifier::*;
        match self {
            VariableName(a) => node!(self, "VariableIdentifier::VariableName", a),
            SpecialIdentifier(a) => node!(self, "VariableIdentifier::SpecialIdentifier", a),
            VariableInNamespace(a, b) => node!(self, "VariableIdentifier::VariableInNamespace", a, b),
            _ => node!(self, "VariableIdentifier::?"),
        }
    }
}
impl Shape for NodeBuiltinArguments {
    fn shape(&self) -> Tree {
        node!(self, "BuiltinArguments", L(&self.arguments))
    }
}
impl Shape for NodeTypeMapKey {
    fn shape(&self) -> Tree {
        use NodeTypeMapKey::*;
        match self {
            GenericMapKey(a) => node!(self, "TypeMapKey::GenericMapKey", a),
            EnclosedGenericId(a) => node!(self, "TypeMapKey::EnclosedGenericId", a),
            EnclosedAddressMapKeyType(a) => node!(self, "TypeMapKey::EnclosedAddressMapKeyType", a),
            AddressMapKeyType(a) => node!(self, "TypeMapKey::AddressMapKeyType", a),
            _ => node!(self, "TypeMapKey::?"),
        }
    }
}
impl Shape for NodeTypeMapValue {
    fn shape(&self) -> Tree {
        use NodeTypeMapValue::*;
        match self {
            MapValueTypeOrEnumLikeIdentifier(a) => node!(self, "TypeMapValue::MapValueTypeOrEnumLikeIdentifier", a),
            MapKeyValue(a) => node!(self, "TypeMapValue::MapKeyValue", a),
            MapValueParenthesizedType(a) => node!(self, "TypeMapValue::MapValueParenthesizedType", a),
            MapValueAddressType(a) => node!(self, "TypeMapValue::MapValueAddressType", a),
            _ => node!(self, "TypeMapValue::?"),
        }
    }
}
impl Shape for NodeTypeArgument {
    fn shape(&self) -> Tree {
        use NodeTypeArgument::*;
        match self {
            EnclosedTypeArgument(a) => node!(self, "TypeArgument::EnclosedTypeArgument", a),
            GenericTypeArgument(a) => node!(self, "TypeArgument::GenericTypeArgument", a),
            TemplateTypeArgument(a) => node!(self, "TypeArgument::TemplateTypeArgument", a),
            AddressTypeArgument(a) => node!(self, "TypeArgument::AddressTypeArgument", a),
            MapTypeArgument(a, b) => node!(self, "TypeArgument::MapTypeArgument", a, b),
            _ => node!(self, "TypeArgument::?"),
        }
    }
}
impl Shape for NodeScillaType {
    fn shape(&self) -> Tree {
        use NodeScillaType::*;
        match self {
            GenericTypeWithArgs(a, b) => node!(self, "ScillaType::GenericTypeWithArgs", a, L(b)),
            MapType(a, b) => node!(self, "ScillaType::MapType", a, b),
            FunctionType(a, b) => node!(self, "ScillaType::FunctionType", a, b),
            EnclosedType(a) => node!(self, "ScillaType::EnclosedType", a),
            ScillaAddresseType(a) => node!(self, "ScillaType::ScillaAddresseType", a),
            PolyFunctionType(a, b) => node!(self, "ScillaType::PolyFunctionType", a, b),
            TypeVarType(a) => node!(self, "ScillaType::TypeVarType", a),
            _ => node!(self, "ScillaType::?"),
        }
    }
}
impl Shape for NodeTypeMapEntry {
    fn shape(&self) -> Tree {
        node!(self, "TypeMapEntry", self.key, self.value)
    }
}
impl Shape for NodeAddressTypeField {
    fn shape(&self) -> Tree {
        node!(self, "AddressTypeField", self.identifier, self.type_name)
    }
}
impl Shape for NodeAddressType {
    fn shape(&self) -> Tree {
        // The keyword forms have no name of their own; their positions are not specified.
        match self.type_name.node.as_str() {
            "" => node!(self, "AddressType/", self.identifier, L(&self.address_fields)),
            "contract" => node!(self, "AddressType/contract", self.identifier, L(&self.address_fields)),
            "library" => node!(self, "AddressType/library", self.identifier, L(&self.address_fields)),
            _ => node!(self, "AddressType/_", self.identifier, self.type_name, L(&self.address_fields)),
        }
    }
}
impl Shape for NodeFullExpression {
    fn shape(&self) -> Tree {
        use NodeFullExpression::*;
        match self {
            LocalVariableDeclaration { identifier_name, expression, type_annotation, containing_expression } => {
                node!(self, "FullExpression::LocalVariableDeclaration", identifier_name, O(type_annotation), expression, containing_expression)
            }
            FunctionDeclaration { identier_value, type_annotation, expression } => {
                node!(self, "FullExpression::FunctionDeclaration", identier_value, type_annotation, expression)
            }
            FunctionCall { function_name, argument_list } => node!(self, "FullExpression::FunctionCall", function_name, L(argument_list)),
            ExpressionAtomic(a) => node!(self, "FullExpression::ExpressionAtomic", a),
            ExpressionBuiltin { b, targs, xs } => node!(self, "FullExpression::ExpressionBuiltin", b, O(targs), xs),
            Message(m) => node!(self, "FullExpression::Message", L(m)),
            Match { match_expression, clauses } => node!(self, "FullExpression::Match", match_expression, L(clauses)),
            ConstructorCall { identifier_name, contract_type_arguments, argument_list } => {
                node!(self, "FullExpression::ConstructorCall", identifier_name, O(contract_type_arguments), L(argument_list))
            }
            TemplateFunction { identifier_name, expression } => node!(self, "FullExpression::TemplateFunction", identifier_name, expression),
            TApp { identifier_name, type_arguments } => node!(self, "FullExpression::TApp", identifier_name, L(type_arguments)),
            _ => node!(self, "FullExpression::?"),
        }
    }
}
impl Shape for NodeMessageEntry {
    fn shape(&self) -> Tree {
        use NodeMessageEntry::*;
        match self {
            MessageLiteral(a, b) => node!(self, "MessageEntry::MessageLiteral", a, b),
            MessageVariable(a, b) => node!(self, "MessageEntry::MessageVariable", a, b),
            _ => node!(self, "MessageEntry::?"),
        }
    }
}
impl Shape for NodePatternMatchExpressionClause {
    fn shape(&self) -> Tree {
        node!(self, "PatternMatchExpressionClause", self.pattern, self.expression)
    }
}
impl Shape for NodeAtomicExpression {
    fn shape(&self) -> Tree {
        use NodeAtomicExpression::*;
        match self {
            AtomicSid(a) => node!(self, "AtomicExpression::AtomicSid", a),
            AtomicLit(a) => node!(self, "AtomicExpression::AtomicLit", a),
            _ => node!(self, "AtomicExpression::?"),
        }
    }
}
impl Shape for NodeContractTypeArguments {
    fn shape(&self) -> Tree {
        node!(self, "ContractTypeArguments", L(&self.type_arguments))
    }
}
impl Shape for NodeValueLiteral {
    fn shape(&self) -> Tree {
        use NodeValueLiteral::*;
        match self {
            LiteralInt(a, b) => node!(self, "ValueLiteral::LiteralInt", a, b),
            LiteralHex(a) => node!(self, "ValueLiteral::LiteralHex", a),
            LiteralString(a) => node!(self, "ValueLiteral::LiteralString", a),
            LiteralEmptyMap(a, b) => node!(self, "ValueLiteral::LiteralEmptyMap", a, b),
            _ => node!(self, "ValueLiteral::?"),
        }
    }
}
impl Shape for NodeMapAccess {
    fn shape(&self) -> Tree {
        node!(self, "MapAccess", self.identifier_name)
    }
}
impl Shape for NodePattern {
    fn shape(&self) -> Tree {
        use NodePattern::*;
        match self {
            Wildcard => node!(self, "Pattern::Wildcard"),
            Binder(a) => node!(self, "Pattern::Binder", a),
            Constructor(a, b) => node!(self, "Pattern::Constructor", a, L(b)),
            _ => node!(self, "Pattern::?"),
        }
    }
}
impl Shape for NodeArgumentPattern {
    fn shape(&self) -> Tree {
        use NodeArgumentPattern::*;
        match self {
            WildcardArgument => node!(self, "ArgumentPattern::WildcardArgument"),
            BinderArgument(a) => node!(self, "ArgumentPattern::BinderArgument", a),
            ConstructorArgument(a) => node!(self, "ArgumentPattern::ConstructorArgument", a),
            PatternArgument(a) => node!(self, "ArgumentPattern::PatternArgument", a),
            _ => node!(self, "ArgumentPattern::?"),
        }
    }
}
impl Shape for NodePatternMatchClause {
    fn shape(&self) -> Tree {
        node!(self, "PatternMatchClause", self.pattern_expression, O(&self.statement_block))
    }
}
impl Shape for NodeBlockchainFetchArguments {
    fn shape(&self) -> Tree {
        node!(self, "BlockchainFetchArguments", L(&self.arguments))
    }
}
impl Shape for NodeStatement {
    fn shape(&self) -> Tree {
        use NodeStatement::*;
        match self {
            Load { left_hand_side, right_hand_side } => node!(self, "Statement::Load", left_hand_side, right_hand_side),
            RemoteFetch(a) => node!(self, "Statement::RemoteFetch", a),
            Store { left_hand_side, right_hand_side } => node!(self, "Statement::Store", left_hand_side, right_hand_side),
            Bind { left_hand_side, right_hand_side } => node!(self, "Statement::Bind", left_hand_side, right_hand_side),
            ReadFromBC { left_hand_side, type_name, arguments } => node!(self, "Statement::ReadFromBC", left_hand_side, type_name, O(arguments)),
            MapGet { left_hand_side, keys, right_hand_side } => node!(self, "Statement::MapGet", left_hand_side, right_hand_side, L(keys)),
            MapGetExists { left_hand_side, keys, right_hand_side } => node!(self, "Statement::MapGetExists", left_hand_side, right_hand_side, L(keys)),
            MapUpdate { left_hand_side, keys, right_hand_side } => node!(self, "Statement::MapUpdate", left_hand_side, L(keys), right_hand_side),
            MapUpdateDelete { left_hand_side, keys } => node!(self, "Statement::MapUpdateDelete", left_hand_side, L(keys)),
            Accept => node!(self, "Statement::Accept"),
            Send { identifier_name } => node!(self, "Statement::Send", identifier_name),
            CreateEvnt { identifier_name } => node!(self, "Statement::CreateEvnt", identifier_name),
            Throw { error_variable } => node!(self, "Statement::Throw", O(error_variable)),
            MatchStmt { variable, clauses } => node!(self, "Statement::MatchStmt", variable, L(clauses)),
            CallProc { component_id, arguments } => node!(self, "Statement::CallProc", component_id, L(arguments)),
            Iterate { identifier_name, component_id } => node!(self, "Statement::Iterate", identifier_name, component_id),
            _ => node!(self, "Statement::?"),
        }
    }
}
impl Shape for NodeRemoteFetchStatement {
    fn shape(&self) -> Tree {
        use NodeRemoteFetchStatement::*;
        match self {
            ReadStateMutable(a, b, c) => node!(self, "RemoteFetchStatement::ReadStateMutable", a, b, c),
            ReadStateMutableSpecialId(a, b, c) => node!(self, "RemoteFetchStatement::ReadStateMutableSpecialId", a, b, c),
            ReadStateMutableMapAccess(a, b, c, d) => node!(self, "RemoteFetchStatement::ReadStateMutableMapAccess", a, b, c, L(d)),
            ReadStateMutableMapAccessExists(a, b, c, d) => node!(self, "RemoteFetchStatement::ReadStateMutableMapAccessExists", a, b, c, L(d)),
            ReadStateMutableCastAddress(a, b, c) => node!(self, "RemoteFetchStatement::ReadStateMutableCastAddress", a, b, c),
            _ => node!(self, "RemoteFetchStatement::?"),
        }
    }
}
impl Shape for NodeComponentId {
    fn shape(&self) -> Tree {
        use NodeComponentId::*;
        match self {
            WithTypeLikeName(a) => node!(self, "ComponentId::WithTypeLikeName", a),
            WithRegularId(a) => node!(self, "ComponentId::WithRegularId", a),
            _ => node!(self, "ComponentId::?"),
        }
    }
}
impl Shape for NodeComponentParameters {
    fn shape(&self) -> Tree {
        node!(self, "ComponentParameters", L(&self.parameters))
    }
}
impl Shape for NodeParameterPair {
    fn shape(&self) -> Tree {
        node!(self, "ParameterPair", self.identifier_with_type)
    }
}
impl Shape for NodeComponentBody {
    fn shape(&self) -> Tree {
        node!(self, "ComponentBody", O(&self.statement_block))
    }
}
impl Shape for NodeStatementBlock {
    fn shape(&self) -> Tree {
        node!(self, "StatementBlock", L(&self.statements))
    }
}
impl Shape for NodeTypedIdentifier {
    fn shape(&self) -> Tree {
        node!(self, "TypedIdentifier", self.identifier_name, self.annotation)
    }
}
impl Shape for NodeTypeAnnotation {
    fn shape(&self) -> Tree {
        node!(self, "TypeAnnotation", self.type_name)
    }
}
impl Shape for NodeProgram {
    fn shape(&self) -> Tree {
        node!(self, "Program", self.version, O(&self.import_declarations), O(&self.library_definition), self.contract_definition)
    }
}
impl Shape for NodeLibraryDefinition {
    fn shape(&self) -> Tree {
        node!(self, "LibraryDefinition", self.name, L(&self.definitions))
    }
}
impl Shape for NodeLibrarySingleDefinition {
    fn shape(&self) -> Tree {
        use NodeLibrarySingleDefinition::*;
        match self {
            LetDefinition { variable_name, type_annotation, expression } => {
                node!(self, "LibrarySingleDefinition::LetDefinition", variable_name, O(type_annotation), expression)
            }
            TypeDefinition(a, None) => node!(self, "LibrarySingleDefinition::TypeDefinition", a),
            TypeDefinition(a, Some(v)) => node!(self, "LibrarySingleDefinition::TypeDefinition", a, L(v)),
            _ => node!(self, "LibrarySingleDefinition::?"),
        }
    }
}
impl Shape for NodeContractDefinition {
    fn shape(&self) -> Tree {
        node!(self, "ContractDefinition", self.contract_name, self.parameters, O(&self.constraint), L(&self.fields), L(&self.components))
    }
}
impl Shape for NodeContractField {
    fn shape(&self) -> Tree {
        node!(self, "ContractField", self.typed_identifier, self.right_hand_side)
    }
}
impl Shape for NodeWithConstraint {
    fn shape(&self) -> Tree {
        node!(self, "WithConstraint", self.expression)
    }
}
impl Shape for NodeComponentDefinition {
    fn shape(&self) -> Tree {
        use NodeComponentDefinition::*;
        match self {
            TransitionComponent(a) => node!(self, "ComponentDefinition::TransitionComponent", a),
            ProcedureComponent(a) => node!(self, "ComponentDefinition::ProcedureComponent", a),
            _ => node!(self, "ComponentDefinition::?"),
        }
    }
}
impl Shape for NodeProcedureDefinition {
    fn shape(&self) -> Tree {
        node!(self, "ProcedureDefinition", self.name, self.parameters, self.body)
    }
}
impl Shape for NodeTransitionDefinition {
    fn shape(&self) -> Tree {
        node!(self, "TransitionDefinition", self.name, self.parameters, self.body)
    }
}
impl Shape for NodeTypeAlternativeClause {
    fn shape(&self) -> Tree {
        use NodeTypeAlternativeClause::*;
        match self {
            ClauseType(a) => node!(self, "TypeAlternativeClause::ClauseType", a),
            ClauseTypeWithArgs(a, b) => node!(self, "TypeAlternativeClause::ClauseTypeWithArgs", a, L(b)),
            _ => node!(self, "TypeAlternativeClause::?"),
        }
    }
}
impl Shape for NodeTypeMapValueArguments {
    fn shape(&self) -> Tree {
        use NodeTypeMapValueArguments::*;
        match self {
            EnclosedTypeMapValue(a) => node!(self, "TypeMapValueArguments::EnclosedTypeMapValue", a),
            GenericMapValueArgument(a) => node!(self, "TypeMapValueArguments::GenericMapValueArgument", a),
            MapKeyValueType(a, b) => node!(self, "TypeMapValueArguments::MapKeyValueType", a, b),
            _ => node!(self, "TypeMapValueArguments::?"),
        }
    }
}
impl Shape for NodeTypeMapValueAllowingTypeArguments {
    fn shape(&self) -> Tree {
        use NodeTypeMapValueAllowingTypeArguments::*;
        match self {
            TypeMapValueNoArgs(a) => node!(self, "TypeMapValueAllowingTypeArguments::TypeMapValueNoArgs", a),
            TypeMapValueWithArgs(a, b) => node!(self, "TypeMapValueAllowingTypeArguments::TypeMapValueWithArgs", a, L(b)),
            _ => node!(self, "TypeMapValueAllowingTypeArguments::?"),
        }
    }
}
