static std::map<Attribute, char const *> const attr_names = {
    {Attribute::Argument, "argument"},
    {Attribute::Arguments, "arguments"},
    {Attribute::Arity, "arity"},
    {Attribute::Atom, "atom"},
    {Attribute::Atoms, "atoms"},
    {Attribute::AtomType, "atom_type"},
    {Attribute::Bias, "bias"},
    {Attribute::Body, "body"},
    {Attribute::Code, "code"},
    {Attribute::Coefficient, "coefficient"},
    {Attribute::Comparison, "comparison"},
    {Attribute::Condition, "condition"},
    {Attribute::Elements, "elements"},
    {Attribute::External, "external"},
    {Attribute::ExternalType, "external_type"},
    {Attribute::Function, "function"},
    {Attribute::Guard, "guard"},
    {Attribute::Guards, "guards"},
    {Attribute::Head, "head"},
    {Attribute::IsDefault, "is_default"},
    {Attribute::Left, "left"},
    {Attribute::LeftGuard, "left_guard"},
    {Attribute::Literal, "literal"},
    {Attribute::Location, "location"},
    {Attribute::Modifier, "modifier"},
    {Attribute::Name, "name"},
    {Attribute::NodeU, "node_u"},
    {Attribute::NodeV, "node_v"},
    {Attribute::OperatorName, "operator_name"},
    {Attribute::OperatorType, "operator_type"},
    {Attribute::Operators, "operators"},
    {Attribute::Parameters, "parameters"},
    {Attribute::Positive, "positive"},
    {Attribute::Priority, "priority"},
    {Attribute::Right, "right"},
    {Attribute::RightGuard, "right_guard"},
    {Attribute::SequenceType, "sequence_type"},
    {Attribute::Sign, "sign"},
    {Attribute::Symbol, "symbol"},
    {Attribute::Term, "term"},
    {Attribute::Terms, "terms"},
    {Attribute::Value, "value"},
    {Attribute::Variable, "variable"},
    {Attribute::Weight, "weight"},
};
static std::map<Type, char const *> const type_names = {
    {Type::Id, "Id"},
    {Type::Variable, "Variable"},
    {Type::SymbolicTerm, "SymbolicTerm"},
    {Type::UnaryOperation, "UnaryOperation"},
    {Type::BinaryOperation, "BinaryOperation"},
    {Type::Interval, "Interval"},
    {Type::Function, "Function"},
    {Type::Pool, "Pool"},
    {Type::BooleanConstant, "BooleanConstant"},
    {Type::SymbolicAtom, "SymbolicAtom"},
    {Type::Comparison, "Comparison"},
    {Type::Guard, "Guard"},
    {Type::ConditionalLiteral, "ConditionalLiteral"},
    {Type::Aggregate, "Aggregate"},
    {Type::BodyAggregateElement, "BodyAggregateElement"},
    {Type::BodyAggregate, "BodyAggregate"},
    {Type::HeadAggregateElement, "HeadAggregateElement"},
    {Type::HeadAggregate, "HeadAggregate"},
    {Type::Disjunction, "Disjunction"},
    {Type::TheorySequence, "TheorySequence"},
    {Type::TheoryFunction, "TheoryFunction"},
    {Type::TheoryUnparsedTermElement, "TheoryUnparsedTermElement"},
    {Type::TheoryUnparsedTerm, "TheoryUnparsedTerm"},
    {Type::TheoryGuard, "TheoryGuard"},
    {Type::TheoryAtomElement, "TheoryAtomElement"},
    {Type::TheoryAtom, "TheoryAtom"},
    {Type::Literal, "Literal"},
    {Type::TheoryOperatorDefinition, "TheoryOperatorDefinition"},
    {Type::TheoryTermDefinition, "TheoryTermDefinition"},
    {Type::TheoryGuardDefinition, "TheoryGuardDefinition"},
    {Type::TheoryAtomDefinition, "TheoryAtomDefinition"},
    {Type::Rule, "Rule"},
    {Type::Definition, "Definition"},
    {Type::ShowSignature, "ShowSignature"},
    {Type::ShowTerm, "ShowTerm"},
    {Type::Minimize, "Minimize"},
    {Type::Script, "Script"},
    {Type::Program, "Program"},
    {Type::External, "External"},
    {Type::Edge, "Edge"},
    {Type::Heuristic, "Heuristic"},
    {Type::ProjectAtom, "ProjectAtom"},
    {Type::ProjectSignature, "ProjectSignature"},
    {Type::Defined, "Defined"},
    {Type::TheoryDefinition, "TheoryDefinition"},
    {Type::Comment, "Comment"},
};
