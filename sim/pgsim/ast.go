package pgsim

type Expr interface{}

type (
	Lit   struct{ v any }
	Param struct{ n int }
	Col   struct {
		tbl, name  string
		cached     bool
		up, bi, ci int
		isVar      bool
	}
	Star struct{ tbl string }
	Bin  struct {
		op   string
		l, r Expr
	}
	Un struct {
		op string
		e  Expr
	}
	Func struct {
		name     string
		args     []Expr
		star     bool
		distinct bool
		over     *Window
		filter   Expr
		order    []OrderItem
		aggID    int
	}
	Window struct {
		partition []Expr
		order     []OrderItem
	}
	Case struct {
		operand Expr
		whens   []When
		els     Expr
	}
	When struct{ c, r Expr }
	Cast struct {
		e   Expr
		typ Type
	}
	InList struct {
		e    Expr
		list []Expr
		sub  *Select
		not  bool
	}
	Between struct {
		e, lo, hi Expr
		not       bool
	}
	IsTest struct {
		e    Expr
		what string // null,true,false,unknown
		not  bool
	}
	IsDistinct struct {
		l, r Expr
		not  bool
	}
	Like struct {
		e, pat Expr
		not, i bool
	}
	Exists struct{ sub *Select }
	SubQ   struct{ sub *Select }
	AnyOp  struct {
		op  string
		e   Expr
		arr Expr
		sub *Select
		all bool
	}
	ArrayLit struct{ items []Expr }
	RowExpr  struct{ items []Expr }
	Index    struct{ e, i Expr }
)

type OrderItem struct {
	e          Expr
	desc       bool
	nullsFirst *bool
}

type SelItem struct {
	e     Expr
	alias string
}

type FromItem struct {
	// exactly one of table, sub, fn, join
	schema, table string
	sub           *Select
	fn            *Func
	lateral       bool
	alias         string
	colAliases    []string
	join          *Join
}
type Join struct {
	kind  string // inner,left,right,full,cross
	l, r  *FromItem
	on    Expr
	using []string
}

type CTE struct {
	name string
	cols []string
	stmt any
}

type LockClause struct {
	mode   lockMode
	skip   bool
	nowait bool
	of     []string
}

type Select struct {
	ctes        []CTE
	recursive   bool
	distinct    bool
	distinctOn  []Expr
	items       []SelItem
	from        []*FromItem
	where       Expr
	group       []Expr
	having      Expr
	values      [][]Expr
	setop       string // union, except, intersect
	all         bool
	left, right *Select
	order       []OrderItem
	limit       Expr
	offset      Expr
	lock        *LockClause
	into        []string
	aggs        []*Func
	wins        []*Func
	analysed    bool
	conj        []Expr
}

type Insert struct {
	ctes     []CTE
	table    string
	alias    string
	cols     []string
	src      *Select
	defaults bool
	conflict *Conflict
	ret      []SelItem
	hasRet   bool
	into     []string
}
type Conflict struct {
	cols       []string
	constraint string
	where      Expr
	update     []SetItem // nil => do nothing
	doUpdate   bool
	updWhere   Expr
}
type SetItem struct {
	cols []string
	e    Expr
	row  bool
}
type Update struct {
	ctes   []CTE
	table  string
	alias  string
	sets   []SetItem
	from   []*FromItem
	where  Expr
	ret    []SelItem
	hasRet bool
	into   []string
	conj   []Expr
}
type Delete struct {
	ctes   []CTE
	table  string
	alias  string
	using  []*FromItem
	where  Expr
	ret    []SelItem
	hasRet bool
	conj   []Expr
}

// DDL
type ColDef struct {
	name       string
	typ        Type
	notNull    bool
	def        Expr
	serial     bool
	pk, unique bool
	check      Expr
	ref        *FKDef
}
type FKDef struct {
	name    string
	cols    []string
	refTbl  string
	refCols []string
	cascade bool
}
type TblConstraint struct {
	name  string
	kind  string // pk, unique, check, fk
	cols  []string
	check Expr
	fk    *FKDef
}
type CreateTable struct {
	name        string
	ifNotExists bool
	cols        []ColDef
	cons        []TblConstraint
}
type CreateIndex struct {
	name, table string
	unique      bool
	ifNotExists bool
	exprs       []Expr
	where       Expr
}
type AlterAction struct {
	kind string // add_col, drop_col, alter_type, add_con, drop_con, set_default, drop_default, set_nn, drop_nn
	col  ColDef
	con  TblConstraint
	name string
	ifx  bool
	e    Expr
}
type AlterTable struct {
	name    string
	actions []AlterAction
}
type Drop struct {
	kind, name, table string
	ifExists          bool
}
type CreateFunc struct {
	name    string
	params  []ColDef
	lang    string
	body    string
	rettype string
}
type CreateTrigger struct {
	name, table, fn string
	before          bool
	events          []string
	when            Expr
}
type NoopStmt struct{ what string }

type Type struct {
	name string // canonical: int8,int4,float8,numeric,text,varchar,bpchar,bool,timestamp,timestamptz,date,jsonb,json,inet,interval,bytea,uuid
	arr  bool
	n, p int
}
