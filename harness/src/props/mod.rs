pub mod builder;
pub mod docs;
pub mod effort;
pub mod real;
pub mod errors;
pub mod lookup;
pub mod text;
pub mod total;
pub mod values;
pub mod variants;

use crate::runner::Facet;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// multiplies the numbers of cases, so that every quick check takes about 20 s
    pub scale: f64,
    pub facets: fn() -> Vec<Facet>,
}

pub const ALL: &[Prop] = &[
    Prop { id: "C01", scale: 4.0, rule: "the text contains a backslash, separator, quote, control or non-ASCII character, or is longer than a line", facets: builder::c01 },
    Prop { id: "C02", scale: 3.0, rule: "at least one line had to be broken", facets: builder::c02 },
    Prop { id: "C03", scale: 5.0, rule: "at least two components and three properties (deep: more than four levels)", facets: builder::c03 },
    Prop { id: "C04", scale: 3.0, rule: "at least two components and two properties; any document, coverage-guided: accepted, with at least one component and one property", facets: docs::c04_facets },
    Prop { id: "C05", scale: 2.0, rule: "the text was accepted by at least one reading entry point (odd values: properties were inspected; repetition and nesting: the piece occurs more than 100 / 20 times)", facets: total::c05 },
    Prop { id: "C06", scale: 3.0, rule: "at least two components and two properties (line: escapes or parameters); any document, coverage-guided: accepted, with at least one component and one property", facets: docs::c06_facets },
    Prop { id: "C07", scale: 3.0, rule: "the two texts differ from each other and from the plain layout, and there are properties; any document, coverage-guided: accepted, with at least one component and one property", facets: docs::c07_facets },
    Prop { id: "C08", scale: 1.3, rule: "more than four content lines (cut off: more than 30 proper prefixes were tried); any document, coverage-guided: accepted, with at least one component and one property", facets: docs::c08_facets },
    Prop { id: "C09", scale: 4.0, rule: "the text contains at least one fold", facets: docs::c09_facets },
    Prop { id: "C10", scale: 6.0, rule: "a property occurs at least twice", facets: docs::c10_facets },
    Prop { id: "C11", scale: 3.0, rule: "at least two components and two properties (property: escapes or parameters; list: at least two elements); any document, coverage-guided: accepted, with at least one component and one property", facets: docs::c11_facets },
    Prop { id: "C12", scale: 5.0, rule: "not midnight of an ordinary date: has a zone, is a date, or lies near a limit", facets: values::c12 },
    Prop { id: "C13", scale: 5.0, rule: "the duration is negative, or needs more than one unit, or has a reference or zone", facets: values::c13 },
    Prop { id: "C14", scale: 5.0, rule: "at least five operations, one of which sets something twice (percent: a value is above 100)", facets: values::c14 },
    Prop { id: "C15", scale: 5.0, rule: "at least four operations with at least two components", facets: values::c15 },
    Prop { id: "C16", scale: 4.0, rule: "at least two components, at least one identifier had to be generated", facets: builder::c16_facets },
    Prop { id: "C17", scale: 5.0, rule: "a value contains a character that needs care", facets: builder::c17 },
    Prop { id: "C18", scale: 10.0, rule: "the property has a type and the value contains a separator, backslash or line break (conversion: the string is no type)", facets: builder::c18 },
    Prop { id: "C19", scale: 8.0, rule: "within a day of a change of the zone's offset", facets: values::c19 },
    Prop { id: "C20", scale: 3.0, rule: "at least two components and two properties (model: has parameters); any document, coverage-guided: accepted, with at least one component and one property", facets: docs::c20_facets },
    Prop { id: "C21", scale: 2.5, rule: "at least two components and two properties (damaged: all)", facets: docs::c21_facets },
    Prop { id: "C22", scale: 8.0, rule: "a parameter value is empty, contains a separator, blank, equal sign or backslash, or is not ASCII", facets: builder::c22 },
    Prop { id: "C23", scale: 3.5, rule: "at least one component and three properties", facets: builder::c23 },
    Prop { id: "C24", scale: 3.0, rule: "at least two components and two properties (strings: the two differ and one has a backslash)", facets: lookup::c24_facets },
    Prop { id: "C25", scale: 2.0, rule: "there is a mistake in a text of more than four lines", facets: errors::c25_facets },
    Prop { id: "C26", scale: 3.0, rule: "the piece that is repeated is short, so that it occurs many times", facets: effort::c26_facets },
    Prop { id: "C27", scale: 1.0, rule: "at least two components were built, or the text was accepted", facets: variants::c27_facets },
];
