case Type::Id: return Node(Type::Id, gL(n, Attribute::Location, f), gS(n, Attribute::Name, f));
case Type::Variable: return Node(Type::Variable, gL(n, Attribute::Location, f), gS(n, Attribute::Name, f));
case Type::SymbolicTerm: return Node(Type::SymbolicTerm, gL(n, Attribute::Location, f), gY(n, Attribute::Symbol, f));
case Type::UnaryOperation: return Node(Type::UnaryOperation, gL(n, Attribute::Location, f), gN(n, Attribute::OperatorType, f), gA(n, Attribute::Argument, f));
case Type::BinaryOperation: return Node(Type::BinaryOperation, gL(n, Attribute::Location, f), gN(n, Attribute::OperatorType, f), gA(n, Attribute::Left, f), gA(n, Attribute::Right, f));
case Type::Interval: return Node(Type::Interval, gL(n, Attribute::Location, f), gA(n, Attribute::Left, f), gA(n, Attribute::Right, f));
case Type::Function: return Node(Type::Function, gL(n, Attribute::Location, f), gS(n, Attribute::Name, f), gV(n, Attribute::Arguments, f), gN(n, Attribute::External, f));
case Type::Pool: return Node(Type::Pool, gL(n, Attribute::Location, f), gV(n, Attribute::Arguments, f));
case Type::BooleanConstant: return Node(Type::BooleanConstant, gN(n, Attribute::Value, f));
case Type::SymbolicAtom: return Node(Type::SymbolicAtom, gA(n, Attribute::Symbol, f));
case Type::Comparison: return Node(Type::Comparison, gA(n, Attribute::Term, f), gV(n, Attribute::Guards, f));
case Type::Guard: return Node(Type::Guard, gN(n, Attribute::Comparison, f), gA(n, Attribute::Term, f));
case Type::ConditionalLiteral: return Node(Type::ConditionalLiteral, gL(n, Attribute::Location, f), gA(n, Attribute::Literal, f), gV(n, Attribute::Condition, f));
case Type::Aggregate: return Node(Type::Aggregate, gL(n, Attribute::Location, f), gO(n, Attribute::LeftGuard, f), gV(n, Attribute::Elements, f), gO(n, Attribute::RightGuard, f));
case Type::BodyAggregateElement: return Node(Type::BodyAggregateElement, gV(n, Attribute::Terms, f), gV(n, Attribute::Condition, f));
case Type::BodyAggregate: return Node(Type::BodyAggregate, gL(n, Attribute::Location, f), gO(n, Attribute::LeftGuard, f), gN(n, Attribute::Function, f), gV(n, Attribute::Elements, f), gO(n, Attribute::RightGuard, f));
case Type::HeadAggregateElement: return Node(Type::HeadAggregateElement, gV(n, Attribute::Terms, f), gA(n, Attribute::Condition, f));
case Type::HeadAggregate: return Node(Type::HeadAggregate, gL(n, Attribute::Location, f), gO(n, Attribute::LeftGuard, f), gN(n, Attribute::Function, f), gV(n, Attribute::Elements, f), gO(n, Attribute::RightGuard, f));
case Type::Disjunction: return Node(Type::Disjunction, gL(n, Attribute::Location, f), gV(n, Attribute::Elements, f));
case Type::TheorySequence: return Node(Type::TheorySequence, gL(n, Attribute::Location, f), gN(n, Attribute::SequenceType, f), gV(n, Attribute::Terms, f));
case Type::TheoryFunction: return Node(Type::TheoryFunction, gL(n, Attribute::Location, f), gS(n, Attribute::Name, f), gV(n, Attribute::Arguments, f));
case Type::TheoryUnparsedTermElement: return Node(Type::TheoryUnparsedTermElement, gW(n, Attribute::Operators, f), gA(n, Attribute::Term, f));
case Type::TheoryUnparsedTerm: return Node(Type::TheoryUnparsedTerm, gL(n, Attribute::Location, f), gV(n, Attribute::Elements, f));
case Type::TheoryGuard: return Node(Type::TheoryGuard, gS(n, Attribute::OperatorName, f), gA(n, Attribute::Term, f));
case Type::TheoryAtomElement: return Node(Type::TheoryAtomElement, gV(n, Attribute::Terms, f), gV(n, Attribute::Condition, f));
case Type::TheoryAtom: return Node(Type::TheoryAtom, gL(n, Attribute::Location, f), gA(n, Attribute::Term, f), gV(n, Attribute::Elements, f), gO(n, Attribute::Guard, f));
case Type::Literal: return Node(Type::Literal, gL(n, Attribute::Location, f), gN(n, Attribute::Sign, f), gA(n, Attribute::Atom, f));
case Type::TheoryOperatorDefinition: return Node(Type::TheoryOperatorDefinition, gL(n, Attribute::Location, f), gS(n, Attribute::Name, f), gN(n, Attribute::Priority, f), gN(n, Attribute::OperatorType, f));
case Type::TheoryTermDefinition: return Node(Type::TheoryTermDefinition, gL(n, Attribute::Location, f), gS(n, Attribute::Name, f), gV(n, Attribute::Operators, f));
case Type::TheoryGuardDefinition: return Node(Type::TheoryGuardDefinition, gW(n, Attribute::Operators, f), gS(n, Attribute::Term, f));
case Type::TheoryAtomDefinition: return Node(Type::TheoryAtomDefinition, gL(n, Attribute::Location, f), gN(n, Attribute::AtomType, f), gS(n, Attribute::Name, f), gN(n, Attribute::Arity, f), gS(n, Attribute::Term, f), gO(n, Attribute::Guard, f));
case Type::Rule: return Node(Type::Rule, gL(n, Attribute::Location, f), gA(n, Attribute::Head, f), gV(n, Attribute::Body, f));
case Type::Definition: return Node(Type::Definition, gL(n, Attribute::Location, f), gS(n, Attribute::Name, f), gA(n, Attribute::Value, f), gN(n, Attribute::IsDefault, f));
case Type::ShowSignature: return Node(Type::ShowSignature, gL(n, Attribute::Location, f), gS(n, Attribute::Name, f), gN(n, Attribute::Arity, f), gN(n, Attribute::Positive, f));
case Type::ShowTerm: return Node(Type::ShowTerm, gL(n, Attribute::Location, f), gA(n, Attribute::Term, f), gV(n, Attribute::Body, f));
case Type::Minimize: return Node(Type::Minimize, gL(n, Attribute::Location, f), gA(n, Attribute::Weight, f), gA(n, Attribute::Priority, f), gV(n, Attribute::Terms, f), gV(n, Attribute::Body, f));
case Type::Script: return Node(Type::Script, gL(n, Attribute::Location, f), gS(n, Attribute::Name, f), gS(n, Attribute::Code, f));
case Type::Program: return Node(Type::Program, gL(n, Attribute::Location, f), gS(n, Attribute::Name, f), gV(n, Attribute::Parameters, f));
case Type::External: return Node(Type::External, gL(n, Attribute::Location, f), gA(n, Attribute::Atom, f), gV(n, Attribute::Body, f), gA(n, Attribute::ExternalType, f));
case Type::Edge: return Node(Type::Edge, gL(n, Attribute::Location, f), gA(n, Attribute::NodeU, f), gA(n, Attribute::NodeV, f), gV(n, Attribute::Body, f));
case Type::Heuristic: return Node(Type::Heuristic, gL(n, Attribute::Location, f), gA(n, Attribute::Atom, f), gV(n, Attribute::Body, f), gA(n, Attribute::Bias, f), gA(n, Attribute::Priority, f), gA(n, Attribute::Modifier, f));
case Type::ProjectAtom: return Node(Type::ProjectAtom, gL(n, Attribute::Location, f), gA(n, Attribute::Atom, f), gV(n, Attribute::Body, f));
case Type::ProjectSignature: return Node(Type::ProjectSignature, gL(n, Attribute::Location, f), gS(n, Attribute::Name, f), gN(n, Attribute::Arity, f), gN(n, Attribute::Positive, f));
case Type::Defined: return Node(Type::Defined, gL(n, Attribute::Location, f), gS(n, Attribute::Name, f), gN(n, Attribute::Arity, f), gN(n, Attribute::Positive, f));
case Type::TheoryDefinition: return Node(Type::TheoryDefinition, gL(n, Attribute::Location, f), gS(n, Attribute::Name, f), gV(n, Attribute::Terms, f), gV(n, Attribute::Atoms, f));
