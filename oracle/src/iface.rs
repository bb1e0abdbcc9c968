//! Reference interface extraction: what a program's syntax tree says the interface is.

use crate::tree::Tree;
use crate::tygen::{arity, name_type, MTy};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Iface {
    pub name: String,
    pub params: Vec<(String, MTy)>,
    pub fields: Vec<(String, MTy)>,
    pub transitions: Vec<(String, Vec<(String, MTy)>)>,
}

/// The type cannot be expressed in the interface model.
#[derive(Clone, Debug, PartialEq)]
pub struct Refuse(pub String);

fn leaf(t: &Tree) -> String {
    t.text.clone().unwrap_or_default()
}

/// Source text of an identifier node, without layout.
pub fn name(t: &Tree) -> String {
    match t.kind {
        "leaf" => leaf(t),
        "TypeNameIdentifier::EventType" => "Event".into(),
        "MetaIdentifier::ByteString" => "ByStr".into(),
        _ => t.ch.iter().map(name).collect::<Vec<_>>().join("."),
    }
}

fn apply(n: String, args: &[Tree]) -> Result<MTy, Refuse> {
    let mut v = vec![];
    for a in args {
        v.push(ty(a)?);
    }
    if let Some(k) = arity(&n) {
        if v.len() != k {
            return Err(Refuse(format!("{} with {} arguments", n, v.len())));
        }
        let mut v = v.into_iter().map(Box::new);
        let a = v.next().unwrap();
        return Ok(match n.as_str() {
            "Option" => MTy::Option(a),
            "List" => MTy::List(a),
            _ => MTy::Pair(a, v.next().unwrap()),
        });
    }
    if v.is_empty() {
        Ok(name_type(&n).unwrap())
    } else {
        Ok(MTy::Any)
    }
}

pub fn ty(t: &Tree) -> Result<MTy, Refuse> {
    let c = &t.ch;
    match t.kind {
        "ScillaType::GenericTypeWithArgs" => apply(name(&c[0]), &c[1..]),
        "TypeMapValueAllowingTypeArguments::TypeMapValueWithArgs" => apply(name(&c[0]), &c[1..]),
        "ScillaType::MapType" | "TypeArgument::MapTypeArgument" | "TypeMapEntry" | "TypeMapValueArguments::MapKeyValueType" => {
            let k = ty(&c[0])?;
            let v = ty(&c[1])?;
            Ok(MTy::Map(Box::new(k), Box::new(v)))
        }
        "ScillaType::FunctionType" => Err(Refuse("function type".into())),
        "ScillaType::PolyFunctionType" => Err(Refuse("polymorphic type".into())),
        "ScillaType::TypeVarType" | "TypeArgument::TemplateTypeArgument" => Err(Refuse("type variable".into())),
        "TypeArgument::GenericTypeArgument"
        | "TypeMapKey::GenericMapKey"
        | "TypeMapKey::EnclosedGenericId"
        | "TypeMapValue::MapValueTypeOrEnumLikeIdentifier"
        | "TypeMapValueArguments::GenericMapValueArgument" => apply(name(&c[0]), &[]),
        "AddressType/" | "AddressType/contract" | "AddressType/library" | "AddressType/_" => {
            let base = name(&c[0]);
            let mut fields = vec![];
            let kind = match t.kind {
                "AddressType/" => "".to_string(),
                "AddressType/contract" => "contract".to_string(),
                "AddressType/library" => "library".to_string(),
                _ => leaf(&c[1]),
            };
            if t.kind == "AddressType/contract" {
                for f in &c[1..] {
                    fields.push((name(&f.ch[0]), ty(&f.ch[1])?));
                }
            }
            if base == "ByStr20" {
                Ok(MTy::Addr(kind, fields))
            } else {
                Ok(MTy::Any)
            }
        }
        // Parentheses and other wrappers around one type.
        _ => {
            assert_eq!(c.len(), 1, "{} is not a type node", t.kind);
            ty(&c[0])
        }
    }
}

fn typed(t: &Tree) -> Result<(String, MTy), Refuse> {
    // TypedIdentifier: leaf, TypeAnnotation
    Ok((leaf(&t.ch[0]), ty(&t.ch[1].ch[0])?))
}

fn params(t: &Tree) -> Result<Vec<(String, MTy)>, Refuse> {
    t.ch.iter().map(|p| typed(&p.ch[0])).collect()
}

/// The interface declared by a program tree.
pub fn extract(program: &Tree) -> Result<Iface, Refuse> {
    assert_eq!(program.kind, "Program");
    let contract = program.ch.last().unwrap();
    let mut out = Iface { name: name(&contract.ch[0]), ..Default::default() };
    for c in &contract.ch[1..] {
        match c.kind {
            "ComponentParameters" => out.params = params(c)?,
            "ContractField" => out.fields.push(typed(&c.ch[0])?),
            "ComponentDefinition::TransitionComponent" => {
                let t = &c.ch[0];
                out.transitions.push((name(&t.ch[0]), params(&t.ch[1])?));
            }
            _ => {}
        }
    }
    Ok(out)
}

impl Iface {
    pub fn has_any(&self) -> bool {
        let l = |v: &Vec<(String, MTy)>| v.iter().any(|(_, t)| t.has_any());
        l(&self.params) || l(&self.fields) || self.transitions.iter().any(|(_, p)| l(p))
    }
    pub fn entries(&self) -> usize {
        self.params.len() + self.fields.len() + self.transitions.iter().map(|(_, p)| 1 + p.len()).sum::<usize>()
    }
}
