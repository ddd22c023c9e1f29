//! The complete observable value of a parsed class, written as compact JSON in the
//! shape the specification gives it (Result in ClassFile.tla).
use cafebabe::attributes::*;
use cafebabe::bytecode::*;
use cafebabe::constant_pool::*;
use cafebabe::descriptors::*;
use cafebabe::ClassFile;
use std::borrow::Cow;

pub struct O<'i> {
    pub s: String,
    pub mode: u8,
    pub input: &'i [u8],
}

fn up(s: &mut String, n: u64) {
    let mut buf = [0u8; 20];
    let mut i = 20;
    let mut n = n;
    loop {
        i -= 1;
        buf[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    s.push_str(std::str::from_utf8(&buf[i..]).unwrap());
}

impl<'i> O<'i> {
    pub fn new(mode: u8, input: &'i [u8]) -> Self {
        O { s: String::new(), mode, input }
    }
    fn num(&mut self, n: i64) {
        if n < 0 {
            self.s.push('-');
        }
        up(&mut self.s, n.unsigned_abs());
    }
    fn name(&mut self, n: &str) {
        self.s.push('"');
        self.s.push_str(n);
        self.s.push('"');
    }
    fn c(&mut self) {
        self.s.push(',');
    }
    fn open(&mut self) {
        self.s.push('[');
    }
    fn close(&mut self) {
        self.s.push(']');
    }
    fn tag(&mut self, n: &str) {
        self.open();
        self.name(n);
    }
    fn list<T>(&mut self, xs: impl IntoIterator<Item = T>, mut f: impl FnMut(&mut Self, T)) {
        self.open();
        for (i, x) in xs.into_iter().enumerate() {
            if i > 0 {
                self.c();
            }
            f(self, x);
        }
        self.close();
    }
    fn opt<T>(&mut self, x: Option<T>, f: impl FnOnce(&mut Self, T)) {
        self.open();
        if let Some(x) = x {
            f(self, x);
        }
        self.close();
    }
    fn bytes(&mut self, b: &[u8]) {
        self.list(b, |o, x| o.num(*x as i64));
    }
    /// Where a slice lies in the input.
    fn place(&mut self, b: &[u8], content: &[u8]) {
        if b.is_empty() {
            self.s.push_str("[0,0]");
            return;
        }
        let base = self.input.as_ptr() as usize;
        let p = b.as_ptr() as usize;
        if p >= base && p + b.len() <= base + self.input.len() {
            self.open();
            up(&mut self.s, (p - base) as u64);
            self.c();
            up(&mut self.s, b.len() as u64);
            self.close();
        } else {
            self.s.push_str("[\"elsewhere\",");
            self.bytes(content);
            self.close();
        }
    }
    fn slice(&mut self, b: &[u8]) {
        self.place(b, b);
    }
    fn cow(&mut self, x: &Cow<'_, str>) {
        if self.mode != b'p' {
            self.bytes(x.as_bytes());
        } else {
            match x {
                Cow::Borrowed(b) => self.place(b.as_bytes(), b.as_bytes()),
                Cow::Owned(b) => {
                    self.s.push_str("[\"o\",");
                    self.bytes(b.as_bytes());
                    self.close();
                }
            }
        }
    }
    fn class_name(&mut self, x: &ClassName<'_>) {
        let c: Cow<'_, str> = x.clone().into();
        // A clone of a borrowed Cow still borrows from the same place.
        self.cow(&c);
    }
    fn fdesc(&mut self, d: &FieldDescriptor<'_>) {
        if self.mode == b'd' {
            let t = d.to_string();
            self.bytes(t.as_bytes());
            return;
        }
        self.open();
        self.num(d.dimensions as i64);
        self.c();
        let code = match &d.field_type {
            FieldType::Byte => b'B',
            FieldType::Char => b'C',
            FieldType::Double => b'D',
            FieldType::Float => b'F',
            FieldType::Integer => b'I',
            FieldType::Long => b'J',
            FieldType::Short => b'S',
            FieldType::Boolean => b'Z',
            FieldType::Object(n) => {
                self.class_name(n);
                self.close();
                return;
            }
        };
        self.num(code as i64);
        self.close();
    }
    fn mdesc(&mut self, d: &MethodDescriptor<'_>) {
        if self.mode == b'd' {
            let t = d.to_string();
            self.bytes(t.as_bytes());
            return;
        }
        self.open();
        self.list(&d.parameters, |o, p| o.fdesc(p));
        self.c();
        self.open();
        match &d.return_type {
            ReturnDescriptor::Void => (),
            ReturnDescriptor::Return(r) => self.fdesc(r),
        }
        self.close();
        self.close();
    }
    fn f32(&mut self, v: f32) {
        let b = v.to_bits();
        self.halves(&[(b >> 16) as u16, b as u16]);
    }
    fn long(&mut self, b: u64) {
        self.halves(&[(b >> 48) as u16, (b >> 32) as u16, (b >> 16) as u16, b as u16]);
    }
    fn halves(&mut self, hs: &[u16]) {
        self.list(hs, |o, h| o.num(*h as i64));
    }
    fn literal(&mut self, l: &LiteralConstant<'_>) {
        match l {
            LiteralConstant::Integer(v) => {
                self.tag("Integer");
                self.c();
                self.open();
                self.num(*v as i64);
                self.close();
            }
            LiteralConstant::Float(v) => {
                self.tag("Float");
                self.c();
                self.f32(*v);
            }
            LiteralConstant::Long(v) => {
                self.tag("Long");
                self.c();
                self.long(*v as u64);
            }
            LiteralConstant::Double(v) => {
                self.tag("Double");
                self.c();
                self.long(v.to_bits());
            }
            LiteralConstant::String(v) => {
                self.tag("String");
                self.c();
                self.cow(v);
            }
            LiteralConstant::StringBytes(v) => {
                self.tag("StringBytes");
                self.c();
                self.slice(v);
            }
        }
        self.close();
    }
    fn nat(&mut self, n: &NameAndType<'_>) {
        self.cow(&n.name);
        self.c();
        self.cow(&n.descriptor);
    }
    fn member(&mut self, m: &MemberRef<'_>) {
        self.cow(&m.class_name);
        self.c();
        self.nat(&m.name_and_type);
    }
    /// kind, member kind, class, name, descriptor (without brackets)
    fn handle(&mut self, h: &MethodHandle<'_>) {
        self.name(match h.kind {
            ReferenceKind::GetField => "GetField",
            ReferenceKind::GetStatic => "GetStatic",
            ReferenceKind::PutField => "PutField",
            ReferenceKind::PutStatic => "PutStatic",
            ReferenceKind::InvokeVirtual => "InvokeVirtual",
            ReferenceKind::InvokeStatic => "InvokeStatic",
            ReferenceKind::InvokeSpecial => "InvokeSpecial",
            ReferenceKind::NewInvokeSpecial => "NewInvokeSpecial",
            ReferenceKind::InvokeInterface => "InvokeInterface",
        });
        self.c();
        self.name(match h.member_kind {
            MemberKind::Field => "Field",
            MemberKind::Method => "Method",
            MemberKind::InterfaceMethod => "InterfaceMethod",
        });
        self.c();
        self.cow(&h.class_name);
        self.c();
        self.nat(&h.member_ref);
    }
    fn tagged_cow(&mut self, t: &str, x: &Cow<'_, str>) {
        self.tag(t);
        self.c();
        self.cow(x);
        self.close();
    }
    fn tagged_handle(&mut self, h: &MethodHandle<'_>) {
        self.tag("MethodHandle");
        self.c();
        self.handle(h);
        self.close();
    }
    fn tagged_dyn(&mut self, t: &str, ix: u16, n: &NameAndType<'_>) {
        self.tag(t);
        self.c();
        self.num(ix as i64);
        self.c();
        self.nat(n);
        self.close();
    }
    fn loadable(&mut self, l: &Loadable<'_>) {
        match l {
            Loadable::LiteralConstant(x) => self.literal(x),
            Loadable::ClassInfo(x) => self.tagged_cow("ClassInfo", x),
            Loadable::MethodHandle(h) => self.tagged_handle(h),
            Loadable::MethodType(x) => self.tagged_cow("MethodType", x),
            Loadable::Dynamic(d) => self.tagged_dyn("Dynamic", d.attr_index, &d.name_and_type),
        }
    }
    fn bootarg(&mut self, l: &BootstrapArgument<'_>) {
        match l {
            BootstrapArgument::LiteralConstant(x) => self.literal(x),
            BootstrapArgument::ClassInfo(x) => self.tagged_cow("ClassInfo", x),
            BootstrapArgument::MethodHandle(h) => self.tagged_handle(h),
            BootstrapArgument::MethodType(x) => self.tagged_cow("MethodType", x),
            BootstrapArgument::Dynamic(d) => {
                self.tagged_dyn("Dynamic", d.attr_index, &d.name_and_type)
            }
        }
    }
    pub fn item(&mut self, it: &ConstantPoolItem<'_>) {
        let member = |o: &mut Self, t: &str, m: &MemberRef<'_>| {
            o.tag(t);
            o.c();
            o.member(m);
            o.close();
        };
        match it {
            ConstantPoolItem::LiteralConstant(x) => self.literal(x),
            ConstantPoolItem::ClassInfo(x) => self.tagged_cow("ClassInfo", x),
            ConstantPoolItem::FieldRef(m) => member(self, "FieldRef", m),
            ConstantPoolItem::MethodRef(m) => member(self, "MethodRef", m),
            ConstantPoolItem::InterfaceMethodRef(m) => member(self, "InterfaceMethodRef", m),
            ConstantPoolItem::NameAndType(n) => {
                self.tag("NameAndType");
                self.c();
                self.nat(n);
                self.close();
            }
            ConstantPoolItem::MethodHandle(h) => self.tagged_handle(h),
            ConstantPoolItem::MethodType(x) => self.tagged_cow("MethodType", x),
            ConstantPoolItem::Dynamic(d) => {
                self.tagged_dyn("Dynamic", d.attr_index, &d.name_and_type)
            }
            ConstantPoolItem::InvokeDynamic(d) => {
                self.tagged_dyn("InvokeDynamic", d.attr_index, &d.name_and_type)
            }
            ConstantPoolItem::ModuleInfo(x) => self.tagged_cow("ModuleInfo", x),
            ConstantPoolItem::PackageInfo(x) => self.tagged_cow("PackageInfo", x),
        }
    }
    fn vtype(&mut self, v: &VerificationType<'_>) {
        match v {
            VerificationType::Top => self.tag("Top"),
            VerificationType::Integer => self.tag("Integer"),
            VerificationType::Float => self.tag("Float"),
            VerificationType::Long => self.tag("Long"),
            VerificationType::Double => self.tag("Double"),
            VerificationType::Null => self.tag("Null"),
            VerificationType::UninitializedThis => self.tag("UninitializedThis"),
            VerificationType::Uninitialized { code_offset } => {
                self.tag("Uninitialized");
                self.c();
                self.num(*code_offset as i64);
            }
            VerificationType::Object { class_name } => {
                self.tag("Object");
                self.c();
                self.cow(class_name);
            }
        }
        self.close();
    }
    fn frame(&mut self, f: &StackMapEntry<'_>) {
        match f {
            StackMapEntry::Same { offset_delta } => {
                self.tag("Same");
                self.c();
                self.num(*offset_delta as i64);
            }
            StackMapEntry::SameLocals1StackItem { offset_delta, stack } => {
                self.tag("SameLocals1StackItem");
                self.c();
                self.num(*offset_delta as i64);
                self.c();
                self.vtype(stack);
            }
            StackMapEntry::Chop { offset_delta, chop_count } => {
                self.tag("Chop");
                self.c();
                self.num(*offset_delta as i64);
                self.c();
                self.num(*chop_count as i64);
            }
            StackMapEntry::Append { offset_delta, locals } => {
                self.tag("Append");
                self.c();
                self.num(*offset_delta as i64);
                self.c();
                self.list(locals, |o, v| o.vtype(v));
            }
            StackMapEntry::FullFrame { offset_delta, locals, stack } => {
                self.tag("FullFrame");
                self.c();
                self.num(*offset_delta as i64);
                self.c();
                self.list(locals, |o, v| o.vtype(v));
                self.c();
                self.list(stack, |o, v| o.vtype(v));
            }
        }
        self.close();
    }
    fn value(&mut self, v: &AnnotationElementValue<'_>) {
        use AnnotationElementValue as V;
        let int = |o: &mut Self, t: &str, v: i32| {
            o.tag(t);
            o.c();
            o.num(v as i64);
        };
        match v {
            V::ByteConstant(x) => int(self, "Byte", *x),
            V::CharConstant(x) => int(self, "Char", *x),
            V::IntConstant(x) => int(self, "Int", *x),
            V::ShortConstant(x) => int(self, "Short", *x),
            V::BooleanConstant(x) => int(self, "Boolean", *x),
            V::DoubleConstant(x) => {
                self.tag("Double");
                self.c();
                self.long(x.to_bits());
            }
            V::FloatConstant(x) => {
                self.tag("Float");
                self.c();
                self.f32(*x);
            }
            V::LongConstant(x) => {
                self.tag("Long");
                self.c();
                self.long(*x as u64);
            }
            V::StringConstant(x) => {
                self.tag("String");
                self.c();
                self.cow(x);
            }
            V::EnumConstant { type_name, const_name } => {
                self.tag("Enum");
                self.c();
                self.fdesc(type_name);
                self.c();
                self.cow(const_name);
            }
            V::ClassLiteral { class_name } => {
                self.tag("Class");
                self.c();
                self.cow(class_name);
            }
            V::AnnotationValue(a) => {
                self.tag("Annotation");
                self.c();
                self.annotation(a);
            }
            V::ArrayValue(xs) => {
                self.tag("Array");
                self.c();
                self.list(xs, |o, x| o.value(x));
            }
        }
        self.close();
    }
    fn annotation(&mut self, a: &Annotation<'_>) {
        self.open();
        self.fdesc(&a.type_descriptor);
        self.c();
        self.list(&a.elements, |o, e| {
            o.open();
            o.cow(&e.name);
            o.c();
            o.value(&e.value);
            o.close();
        });
        self.close();
    }
    fn annotations(&mut self, xs: &[Annotation<'_>]) {
        self.list(xs, |o, a| o.annotation(a));
    }
    fn param_annotations(&mut self, xs: &[ParameterAnnotation<'_>]) {
        self.list(xs, |o, p| o.annotations(&p.annotations));
    }
    fn nums(&mut self, t: &str, ns: &[u16]) {
        self.tag(t);
        for n in ns {
            self.c();
            self.num(*n as i64);
        }
        self.close();
    }
    fn tuple(&mut self, ns: &[u16]) {
        self.list(ns, |o, n| o.num(*n as i64));
    }
    fn type_annotations(&mut self, xs: &[TypeAnnotation<'_>]) {
        use TypeAnnotationTarget as T;
        self.list(xs, |o, a| {
            o.open();
            match &a.target_type {
                T::TypeParameter { index } => o.nums("TypeParameter", &[*index as u16]),
                T::Supertype { index } => o.nums("Supertype", &[*index]),
                T::TypeParameterBound { type_parameter_index, bound_index } => o.nums(
                    "TypeParameterBound",
                    &[*type_parameter_index as u16, *bound_index as u16],
                ),
                T::Empty => o.nums("Empty", &[]),
                T::FormalParameter { index } => o.nums("FormalParameter", &[*index as u16]),
                T::Throws { index } => o.nums("Throws", &[*index]),
                T::LocalVar(vs) => {
                    o.tag("LocalVar");
                    o.c();
                    o.list(vs, |o, v| o.tuple(&[v.start_pc, v.length, v.index]));
                    o.close();
                }
                T::Catch { exception_table_index } => o.nums("Catch", &[*exception_table_index]),
                T::Offset { offset } => o.nums("Offset", &[*offset]),
                T::TypeArgument { offset, type_argument_index } => {
                    o.nums("TypeArgument", &[*offset, *type_argument_index as u16])
                }
            }
            o.c();
            o.list(&a.target_path, |o, p| {
                o.open();
                o.name(match p.path_kind {
                    TypeAnnotationTargetPathKind::DeeperArray => "DeeperArray",
                    TypeAnnotationTargetPathKind::DeeperNested => "DeeperNested",
                    TypeAnnotationTargetPathKind::WildcardTypeArgument => "WildcardTypeArgument",
                    TypeAnnotationTargetPathKind::TypeArgument => "TypeArgument",
                });
                o.c();
                o.num(p.argument_index as i64);
                o.close();
            });
            o.c();
            o.annotation(&a.annotation);
            o.close();
        });
    }
    fn object_type(&mut self, t: &ObjectArrayType<'_>) {
        match t {
            ObjectArrayType::ArrayType(d) => {
                self.tag("ArrayType");
                self.c();
                self.fdesc(d);
                self.close();
            }
            ObjectArrayType::BinaryName(n) => self.tagged_cow("BinaryName", n),
        }
    }
    fn opcode(&mut self, off: usize, op: &Opcode<'_>) {
        use Opcode::*;
        self.open();
        up(&mut self.s, off as u64);
        self.c();
        // The variant's name is the start of its debug form.
        let mut dbg = String::new();
        struct Stop<'s>(&'s mut String);
        impl std::fmt::Write for Stop<'_> {
            fn write_str(&mut self, t: &str) -> std::fmt::Result {
                for ch in t.chars() {
                    if !ch.is_ascii_alphanumeric() {
                        return Err(std::fmt::Error);
                    }
                    self.0.push(ch);
                }
                Ok(())
            }
        }
        let _ = std::fmt::write(&mut Stop(&mut dbg), format_args!("{:?}", op));
        self.name(&dbg);
        match op {
            Aload(n) | Astore(n) | Dload(n) | Dstore(n) | Fload(n) | Fstore(n) | Iload(n)
            | Istore(n) | Lload(n) | Lstore(n) | Ret(n) => {
                self.c();
                self.num(*n as i64);
            }
            Bipush(v) => {
                self.c();
                self.num(*v as i64);
            }
            Sipush(v) => {
                self.c();
                self.num(*v as i64);
            }
            Iinc(n, v) => {
                self.c();
                self.num(*n as i64);
                self.c();
                self.num(*v as i64);
            }
            Goto(j) | IfAcmpeq(j) | IfAcmpne(j) | IfIcmpeq(j) | IfIcmpge(j) | IfIcmpgt(j)
            | IfIcmple(j) | IfIcmplt(j) | IfIcmpne(j) | Ifeq(j) | Ifge(j) | Ifgt(j) | Ifle(j)
            | Iflt(j) | Ifne(j) | Ifnonnull(j) | Ifnull(j) | Jsr(j) => {
                self.c();
                self.num(*j as i64);
            }
            Getfield(m) | Getstatic(m) | Putfield(m) | Putstatic(m) | Invokespecial(m)
            | Invokestatic(m) | Invokevirtual(m) => {
                self.c();
                self.member(m);
            }
            Invokeinterface(m, n) => {
                self.c();
                self.member(m);
                self.c();
                self.num(*n as i64);
            }
            Invokedynamic(d) => {
                self.c();
                self.num(d.attr_index as i64);
                self.c();
                self.nat(&d.name_and_type);
            }
            New(n) => {
                self.c();
                self.cow(n);
            }
            Newarray(p) => {
                self.c();
                self.name(match p {
                    PrimitiveArrayType::Boolean => "Boolean",
                    PrimitiveArrayType::Char => "Char",
                    PrimitiveArrayType::Float => "Float",
                    PrimitiveArrayType::Double => "Double",
                    PrimitiveArrayType::Byte => "Byte",
                    PrimitiveArrayType::Short => "Short",
                    PrimitiveArrayType::Int => "Int",
                    PrimitiveArrayType::Long => "Long",
                });
            }
            Anewarray(t) | Checkcast(t) | Instanceof(t) => {
                self.c();
                self.object_type(t);
            }
            Multianewarray(t, n) => {
                self.c();
                self.object_type(t);
                self.c();
                self.num(*n as i64);
            }
            Ldc(l) | LdcW(l) | Ldc2W(l) => {
                self.c();
                self.loadable(l);
            }
            Tableswitch(t) => {
                for v in [t.default, t.low, t.high] {
                    self.c();
                    self.num(v as i64);
                }
                self.c();
                self.list(&t.jumps, |o, j| o.num(*j as i64));
            }
            Lookupswitch(t) => {
                self.c();
                self.num(t.default as i64);
                self.c();
                self.list(&t.match_offsets, |o, (m, j)| {
                    o.open();
                    o.num(*m as i64);
                    o.c();
                    o.num(*j as i64);
                    o.close();
                });
            }
            _ => (),
        }
        self.close();
    }
    fn code(&mut self, c: &CodeData<'_>) {
        self.open();
        self.num(c.max_stack as i64);
        self.c();
        self.num(c.max_locals as i64);
        self.c();
        self.slice(c.code);
        self.c();
        let lookups = self.mode == b'l';
        self.opt(c.bytecode.as_ref(), |o, b| {
            if lookups {
                let n = c.code.len();
                let offs = (0..n + 3).chain([1 << 16, 1 << 31, usize::MAX]);
                o.list(offs, |o, off| {
                    let r = b.get_opcode_index(off);
                    o.num(r.map_or(-1, |i| i as i64));
                });
            } else {
                o.list(&b.opcodes, |o, (off, op)| o.opcode(*off, op));
            }
        });
        self.c();
        self.list(&c.exception_table, |o, e| {
            o.open();
            for n in [e.start_pc, e.end_pc, e.handler_pc] {
                o.num(n as i64);
                o.c();
            }
            o.opt(e.catch_type.as_ref(), |o, x| o.cow(x));
            o.close();
        });
        self.c();
        self.attributes(&c.attributes);
        self.close();
    }
    fn cows(&mut self, xs: &[Cow<'_, str>]) {
        self.list(xs, |o, x| o.cow(x));
    }
    fn module(&mut self, m: &ModuleData<'_>) {
        self.open();
        self.cow(&m.name);
        self.c();
        self.num(m.access_flags.bits() as i64);
        self.c();
        self.opt(m.version.as_ref(), |o, x| o.cow(x));
        self.c();
        self.list(&m.requires, |o, r| {
            o.open();
            o.cow(&r.name);
            o.c();
            o.num(r.flags.bits() as i64);
            o.c();
            o.opt(r.version.as_ref(), |o, x| o.cow(x));
            o.close();
        });
        self.c();
        self.list(&m.exports, |o, e| {
            o.open();
            o.cow(&e.package_name);
            o.c();
            o.num(e.flags.bits() as i64);
            o.c();
            o.cows(&e.exports_to);
            o.close();
        });
        self.c();
        self.list(&m.opens, |o, e| {
            o.open();
            o.cow(&e.package_name);
            o.c();
            o.num(e.flags.bits() as i64);
            o.c();
            o.cows(&e.opens_to);
            o.close();
        });
        self.c();
        self.cows(&m.uses);
        self.c();
        self.list(&m.provides, |o, p| {
            o.open();
            o.cow(&p.service_interface_name);
            o.c();
            o.cows(&p.provides_with);
            o.close();
        });
        self.close();
    }
    fn attribute(&mut self, a: &AttributeInfo<'_>) {
        use AttributeData as D;
        self.open();
        self.cow(&a.name);
        self.c();
        macro_rules! kind {
            ($n:literal, $e:expr) => {{
                self.name($n);
                self.c();
                $e
            }};
        }
        match &a.data {
            D::ConstantValue(l) => kind!("ConstantValue", self.literal(l)),
            D::Code(c) => kind!("Code", self.code(c)),
            D::StackMapTable(fs) => kind!("StackMapTable", self.list(fs, |o, f| o.frame(f))),
            D::Exceptions(xs) => kind!("Exceptions", self.cows(xs)),
            D::InnerClasses(xs) => kind!(
                "InnerClasses",
                self.list(xs, |o, x| {
                    o.open();
                    o.cow(&x.inner_class_info);
                    o.c();
                    o.opt(x.outer_class_info.as_ref(), |o, x| o.cow(x));
                    o.c();
                    o.opt(x.inner_name.as_ref(), |o, x| o.cow(x));
                    o.c();
                    o.num(x.access_flags.bits() as i64);
                    o.close();
                })
            ),
            D::EnclosingMethod { class_name, method } => kind!("EnclosingMethod", {
                self.open();
                self.cow(class_name);
                self.c();
                self.opt(method.as_ref(), |o, m| {
                    o.open();
                    o.nat(m);
                    o.close();
                });
                self.close();
            }),
            D::Synthetic => self.name("Synthetic"),
            D::Deprecated => self.name("Deprecated"),
            D::Signature(x) => kind!("Signature", self.cow(x)),
            D::SourceFile(x) => kind!("SourceFile", self.cow(x)),
            D::SourceDebugExtension(x) => kind!("SourceDebugExtension", self.cow(x)),
            D::LineNumberTable(xs) => kind!(
                "LineNumberTable",
                self.list(xs, |o, x| o.tuple(&[x.start_pc, x.line_number]))
            ),
            D::LocalVariableTable(xs) => kind!(
                "LocalVariableTable",
                self.list(xs, |o, x| {
                    o.open();
                    o.num(x.start_pc as i64);
                    o.c();
                    o.num(x.length as i64);
                    o.c();
                    o.cow(&x.name);
                    o.c();
                    o.fdesc(&x.descriptor);
                    o.c();
                    o.num(x.index as i64);
                    o.close();
                })
            ),
            D::LocalVariableTypeTable(xs) => kind!(
                "LocalVariableTypeTable",
                self.list(xs, |o, x| {
                    o.open();
                    o.num(x.start_pc as i64);
                    o.c();
                    o.num(x.length as i64);
                    o.c();
                    o.cow(&x.name);
                    o.c();
                    o.cow(&x.signature);
                    o.c();
                    o.num(x.index as i64);
                    o.close();
                })
            ),
            D::RuntimeVisibleAnnotations(xs) => {
                kind!("RuntimeVisibleAnnotations", self.annotations(xs))
            }
            D::RuntimeInvisibleAnnotations(xs) => {
                kind!("RuntimeInvisibleAnnotations", self.annotations(xs))
            }
            D::RuntimeVisibleParameterAnnotations(xs) => {
                kind!("RuntimeVisibleParameterAnnotations", self.param_annotations(xs))
            }
            D::RuntimeInvisibleParameterAnnotations(xs) => {
                kind!("RuntimeInvisibleParameterAnnotations", self.param_annotations(xs))
            }
            D::RuntimeVisibleTypeAnnotations(xs) => {
                kind!("RuntimeVisibleTypeAnnotations", self.type_annotations(xs))
            }
            D::RuntimeInvisibleTypeAnnotations(xs) => {
                kind!("RuntimeInvisibleTypeAnnotations", self.type_annotations(xs))
            }
            D::AnnotationDefault(v) => kind!("AnnotationDefault", self.value(v)),
            D::BootstrapMethods(xs) => kind!(
                "BootstrapMethods",
                self.list(xs, |o, b| {
                    o.open();
                    o.open();
                    o.handle(&b.method);
                    o.close();
                    o.c();
                    o.list(&b.arguments, |o, a| o.bootarg(a));
                    o.close();
                })
            ),
            D::MethodParameters(xs) => kind!(
                "MethodParameters",
                self.list(xs, |o, p| {
                    o.open();
                    o.opt(p.name.as_ref(), |o, x| o.cow(x));
                    o.c();
                    o.num(p.access_flags.bits() as i64);
                    o.close();
                })
            ),
            D::Module(m) => kind!("Module", self.module(m)),
            D::ModulePackages(xs) => kind!("ModulePackages", self.cows(xs)),
            D::ModuleMainClass(x) => kind!("ModuleMainClass", self.cow(x)),
            D::NestHost(x) => kind!("NestHost", self.cow(x)),
            D::NestMembers(xs) => kind!("NestMembers", self.cows(xs)),
            D::PermittedSubclasses(xs) => kind!("PermittedSubclasses", self.cows(xs)),
            D::Record(xs) => kind!(
                "Record",
                self.list(xs, |o, r| {
                    o.open();
                    o.cow(&r.name);
                    o.c();
                    o.fdesc(&r.descriptor);
                    o.c();
                    o.attributes(&r.attributes);
                    o.close();
                })
            ),
            D::Other(b) => kind!("Other", self.slice(b)),
        }
        self.close();
    }
    fn attributes(&mut self, xs: &[AttributeInfo<'_>]) {
        self.list(xs, |o, a| o.attribute(a));
    }
    pub fn items<'a>(&mut self, c: &'a ClassFile<'a>) {
        self.list(c.constantpool_iter(), |o, it| o.item(&it));
    }
    pub fn class<'a>(&mut self, c: &'a ClassFile<'a>) {
        self.values(c);
        if matches!(self.mode, b'v' | b'p' | b'x') {
            self.items(c);
        } else {
            self.s.push_str("[]");
        }
        self.close();
    }
    /// The class without its items (and without the closing bracket).
    pub fn values(&mut self, c: &ClassFile<'_>) {
        self.open();
        self.num(c.minor_version as i64);
        self.c();
        self.num(c.major_version as i64);
        self.c();
        self.num(c.access_flags.bits() as i64);
        self.c();
        self.class_name(&c.this_class);
        self.c();
        self.opt(c.super_class.as_ref(), |o, x| o.class_name(x));
        self.c();
        self.list(&c.interfaces, |o, x| o.class_name(x));
        self.c();
        self.list(&c.fields, |o, f| {
            o.open();
            o.num(f.access_flags.bits() as i64);
            o.c();
            o.cow(&f.name);
            o.c();
            o.fdesc(&f.descriptor);
            o.c();
            o.attributes(&f.attributes);
            o.close();
        });
        self.c();
        self.list(&c.methods, |o, m| {
            o.open();
            o.num(m.access_flags.bits() as i64);
            o.c();
            o.cow(&m.name);
            o.c();
            o.mdesc(&m.descriptor);
            o.c();
            o.attributes(&m.attributes);
            o.close();
        });
        self.c();
        self.attributes(&c.attributes);
        self.c();
    }
}
