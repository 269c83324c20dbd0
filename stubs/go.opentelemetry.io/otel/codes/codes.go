package codes

type Code uint32

const (
	Unset Code = 0
	Error Code = 1
	Ok    Code = 2
)

func (c Code) String() string { return [...]string{"Unset", "Error", "Ok"}[c] }
