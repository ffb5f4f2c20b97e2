package gen

// Code generated from the standard library; the names its packages export.
var exported = map[string]string{
	"bytes":           " Buffer Clone Compare Contains ContainsAny ContainsFunc ContainsRune Count Cut CutLast CutPrefix CutSuffix Equal EqualFold ErrTooLarge Fields FieldsFunc FieldsFuncSeq FieldsSeq HasPrefix HasSuffix Index IndexAny IndexByte IndexFunc IndexRune Join LastIndex LastIndexAny LastIndexByte LastIndexFunc Lines Map MinRead NewBuffer NewBufferString NewReader Reader Repeat Replace ReplaceAll Runes Split SplitAfter SplitAfterN SplitAfterSeq SplitN SplitSeq Title ToLower ToLowerSpecial ToTitle ToTitleSpecial ToUpper ToUpperSpecial ToValidUTF8 Trim TrimFunc TrimLeft TrimLeftFunc TrimPrefix TrimRight TrimRightFunc TrimSpace TrimSuffix ",
	"context":         " AfterFunc Background CancelCauseFunc CancelFunc Canceled Cause Context DeadlineExceeded TODO WithCancel WithCancelCause WithDeadline WithDeadlineCause WithTimeout WithTimeoutCause WithValue WithoutCancel ",
	"encoding/base64": " CorruptInputError Encoding NewDecoder NewEncoder NewEncoding NoPadding RawStdEncoding RawURLEncoding StdEncoding StdPadding URLEncoding ",
	"encoding/hex":    " AppendDecode AppendEncode Decode DecodeString DecodedLen Dump Dumper Encode EncodeToString EncodedLen ErrLength InvalidByteError NewDecoder NewEncoder ",
	"encoding/xml":    " Attr CharData Comment CopyToken Decoder Directive Encoder EndElement Escape EscapeText HTMLAutoClose HTMLEntity Header Marshal MarshalIndent Marshaler MarshalerAttr Name NewDecoder NewEncoder NewTokenDecoder ProcInst StartElement SyntaxError TagPathError Token TokenReader Unmarshal UnmarshalError Unmarshaler UnmarshalerAttr UnsupportedTypeError ",
	"errors":          " As AsType ErrUnsupported Is Join New Unwrap ",
	"fmt":             " Append Appendf Appendln Errorf FormatString Formatter Fprint Fprintf Fprintln Fscan Fscanf Fscanln GoStringer Print Printf Println Scan ScanState Scanf Scanln Scanner Sprint Sprintf Sprintln Sscan Sscanf Sscanln State Stringer ",
	"io":              " ByteReader ByteScanner ByteWriter Closer Copy CopyBuffer CopyN Discard EOF ErrClosedPipe ErrNoProgress ErrShortBuffer ErrShortWrite ErrUnexpectedEOF LimitReader LimitedReader MultiReader MultiWriter NewOffsetWriter NewSectionReader NopCloser OffsetWriter Pipe PipeReader PipeWriter ReadAll ReadAtLeast ReadCloser ReadFull ReadSeekCloser ReadSeeker ReadWriteCloser ReadWriteSeeker ReadWriter Reader ReaderAt ReaderFrom RuneReader RuneScanner SectionReader SeekCurrent SeekEnd SeekStart Seeker StringWriter TeeReader WriteCloser WriteSeeker WriteString Writer WriterAt WriterTo ",
	"net/http":        " AllowQuerySemicolons CanonicalHeaderKey Client ClientConn CloseNotifier ConnState Cookie CookieJar CrossOriginProtection DefaultClient DefaultMaxHeaderBytes DefaultMaxHeaderValueCount DefaultMaxIdleConnsPerHost DefaultServeMux DefaultTransport DetectContentType Dir ErrAbortHandler ErrBodyNotAllowed ErrBodyReadAfterClose ErrContentLength ErrHandlerTimeout ErrHeaderTooLong ErrHijacked ErrLineTooLong ErrMissingBoundary ErrMissingContentLength ErrMissingFile ErrNoCookie ErrNoLocation ErrNotMultipart ErrNotSupported ErrSchemeMismatch ErrServerClosed ErrShortBody ErrSkipAltProtocol ErrUnexpectedTrailer ErrUseLastResponse ErrWriteAfterFlush Error FS File FileServer FileServerFS FileSystem Flusher Get HTTP2Config Handle HandleFunc Handler HandlerFunc Head Header Hijacker ListenAndServe ListenAndServeTLS LocalAddrContextKey MaxBytesError MaxBytesHandler MaxBytesReader MethodConnect MethodDelete MethodGet MethodHead MethodOptions MethodPatch MethodPost MethodPut MethodTrace NewCrossOriginProtection NewFileTransport NewFileTransportFS NewRequest NewRequestWithContext NewResponseController NewServeMux NoBody NotFound NotFoundHandler ParseCookie ParseHTTPVersion ParseSetCookie ParseTime Post PostForm ProtocolError Protocols ProxyFromEnvironment ProxyURL PushOptions Pusher ReadRequest ReadResponse Redirect RedirectHandler Request Response ResponseController ResponseWriter RoundTripper SameSite SameSiteDefaultMode SameSiteLaxMode SameSiteNoneMode SameSiteStrictMode Serve ServeContent ServeFile ServeFileFS ServeMux ServeTLS Server ServerContextKey SetCookie StateActive StateClosed StateHijacked StateIdle StateNew StatusAccepted StatusAlreadyReported StatusBadGateway StatusBadRequest StatusConflict StatusContinue StatusCreated StatusEarlyHints StatusExpectationFailed StatusFailedDependency StatusForbidden StatusFound StatusGatewayTimeout StatusGone StatusHTTPVersionNotSupported StatusIMUsed StatusInsufficientStorage StatusInternalServerError StatusLengthRequired StatusLocked StatusLoopDetected StatusMethodNotAllowed StatusMisdirectedRequest StatusMovedPermanently StatusMultiStatus StatusMultipleChoices StatusNetworkAuthenticationRequired StatusNoContent StatusNonAuthoritativeInfo StatusNotAcceptable StatusNotExtended StatusNotFound StatusNotImplemented StatusNotModified StatusOK StatusPartialContent StatusPaymentRequired StatusPermanentRedirect StatusPreconditionFailed StatusPreconditionRequired StatusProcessing StatusProxyAuthRequired StatusRequestEntityTooLarge StatusRequestHeaderFieldsTooLarge StatusRequestTimeout StatusRequestURITooLong StatusRequestedRangeNotSatisfiable StatusResetContent StatusSeeOther StatusServiceUnavailable StatusSwitchingProtocols StatusTeapot StatusTemporaryRedirect StatusText StatusTooEarly StatusTooManyRequests StatusUnauthorized StatusUnavailableForLegalReasons StatusUnprocessableEntity StatusUnsupportedMediaType StatusUpgradeRequired StatusUseProxy StatusVariantAlsoNegotiates StripPrefix TimeFormat TimeoutHandler TrailerPrefix Transport ",
	"strconv":         " AppendBool AppendFloat AppendInt AppendQuote AppendQuoteRune AppendQuoteRuneToASCII AppendQuoteRuneToGraphic AppendQuoteToASCII AppendQuoteToGraphic AppendUint Atoi CanBackquote ErrRange ErrSyntax FormatBool FormatComplex FormatFloat FormatInt FormatUint IntSize IsGraphic IsPrint Itoa NumError ParseBool ParseComplex ParseFloat ParseInt ParseUint Quote QuoteRune QuoteRuneToASCII QuoteRuneToGraphic QuoteToASCII QuoteToGraphic QuotedPrefix Unquote UnquoteChar ",
	"strings":         " Builder Clone Compare Contains ContainsAny ContainsFunc ContainsRune Count Cut CutLast CutPrefix CutSuffix EqualFold Fields FieldsFunc FieldsFuncSeq FieldsSeq HasPrefix HasSuffix Index IndexAny IndexByte IndexFunc IndexRune Join LastIndex LastIndexAny LastIndexByte LastIndexFunc Lines Map NewReader NewReplacer Reader Repeat Replace ReplaceAll Replacer Split SplitAfter SplitAfterN SplitAfterSeq SplitN SplitSeq Title ToLower ToLowerSpecial ToTitle ToTitleSpecial ToUpper ToUpperSpecial ToValidUTF8 Trim TrimFunc TrimLeft TrimLeftFunc TrimPrefix TrimRight TrimRightFunc TrimSpace TrimSuffix ",
	"time":            " ANSIC After AfterFunc April August Date DateOnly DateTime December Duration February FixedZone Friday Hour January July June Kitchen Layout LoadLocation LoadLocationFromTZData Local Location March May Microsecond Millisecond Minute Monday Month Nanosecond NewTicker NewTimer November Now October Parse ParseDuration ParseError ParseInLocation RFC1123 RFC1123Z RFC3339 RFC3339Nano RFC822 RFC822Z RFC850 RubyDate Saturday Second September Since Sleep Stamp StampMicro StampMilli StampNano Sunday Thursday Tick Ticker Time TimeOnly Timer Tuesday UTC Unix UnixDate UnixMicro UnixMilli Until Wednesday Weekday ",
}

// The functions over basic types.
var functions = map[string]string{
	"bytes": `func Clone(b []byte) []byte
func Compare(a []byte, b []byte) int
func Contains(b []byte, subslice []byte) bool
func ContainsAny(b []byte, chars string) bool
func ContainsFunc(b []byte, f func(rune) bool) bool
func ContainsRune(b []byte, r rune) bool
func Count(s []byte, sep []byte) int
func Cut(s []byte, sep []byte) (before []byte, after []byte, found bool)
func CutLast(s []byte, sep []byte) (before []byte, after []byte, found bool)
func CutPrefix(s []byte, prefix []byte) (after []byte, found bool)
func CutSuffix(s []byte, suffix []byte) (before []byte, found bool)
func Equal(a []byte, b []byte) bool
func EqualFold(s []byte, t []byte) bool
func Fields(s []byte) [][]byte
func FieldsFunc(s []byte, f func(rune) bool) [][]byte
func HasPrefix(s []byte, prefix []byte) bool
func HasSuffix(s []byte, suffix []byte) bool
func Index(s []byte, sep []byte) int
func IndexAny(s []byte, chars string) int
func IndexByte(b []byte, c byte) int
func IndexFunc(s []byte, f func(r rune) bool) int
func IndexRune(s []byte, r rune) int
func Join(s [][]byte, sep []byte) []byte
func LastIndex(s []byte, sep []byte) int
func LastIndexAny(s []byte, chars string) int
func LastIndexByte(s []byte, c byte) int
func LastIndexFunc(s []byte, f func(r rune) bool) int
func Map(mapping func(r rune) rune, s []byte) []byte
func Repeat(b []byte, count int) []byte
func Replace(s []byte, old []byte, new []byte, n int) []byte
func ReplaceAll(s []byte, old []byte, new []byte) []byte
func Runes(s []byte) []rune
func Split(s []byte, sep []byte) [][]byte
func SplitAfter(s []byte, sep []byte) [][]byte
func SplitAfterN(s []byte, sep []byte, n int) [][]byte
func SplitN(s []byte, sep []byte, n int) [][]byte
func Title(s []byte) []byte
func ToLower(s []byte) []byte
func ToTitle(s []byte) []byte
func ToUpper(s []byte) []byte
func ToValidUTF8(s []byte, replacement []byte) []byte
func Trim(s []byte, cutset string) []byte
func TrimFunc(s []byte, f func(r rune) bool) []byte
func TrimLeft(s []byte, cutset string) []byte
func TrimLeftFunc(s []byte, f func(r rune) bool) []byte
func TrimPrefix(s []byte, prefix []byte) []byte
func TrimRight(s []byte, cutset string) []byte
func TrimRightFunc(s []byte, f func(r rune) bool) []byte
func TrimSpace(s []byte) []byte
func TrimSuffix(s []byte, suffix []byte) []byte`,
	"encoding/hex": `func AppendDecode(dst []byte, src []byte) ([]byte, error)
func AppendEncode(dst []byte, src []byte) []byte
func Decode(dst []byte, src []byte) (int, error)
func DecodeString(s string) ([]byte, error)
func DecodedLen(x int) int
func Dump(data []byte) string
func Encode(dst []byte, src []byte) int
func EncodeToString(src []byte) string
func EncodedLen(n int) int`,
	"errors": `func As(err error, target any) bool
func Is(err error, target error) bool
func Join(errs ...error) error
func New(text string) error
func Unwrap(err error) error`,
	"strconv": `func AppendBool(dst []byte, b bool) []byte
func AppendFloat(dst []byte, f float64, fmt byte, prec int, bitSize int) []byte
func AppendInt(dst []byte, i int64, base int) []byte
func AppendQuote(dst []byte, s string) []byte
func AppendQuoteRune(dst []byte, r rune) []byte
func AppendQuoteRuneToASCII(dst []byte, r rune) []byte
func AppendQuoteRuneToGraphic(dst []byte, r rune) []byte
func AppendQuoteToASCII(dst []byte, s string) []byte
func AppendQuoteToGraphic(dst []byte, s string) []byte
func AppendUint(dst []byte, i uint64, base int) []byte
func Atoi(s string) (int, error)
func CanBackquote(s string) bool
func FormatBool(b bool) string
func FormatComplex(c complex128, fmt byte, prec int, bitSize int) string
func FormatFloat(f float64, fmt byte, prec int, bitSize int) string
func FormatInt(i int64, base int) string
func FormatUint(i uint64, base int) string
func IsGraphic(r rune) bool
func IsPrint(r rune) bool
func Itoa(i int) string
func ParseBool(str string) (bool, error)
func ParseComplex(s string, bitSize int) (complex128, error)
func ParseFloat(s string, bitSize int) (float64, error)
func ParseInt(s string, base int, bitSize int) (i int64, err error)
func ParseUint(s string, base int, bitSize int) (uint64, error)
func Quote(s string) string
func QuoteRune(r rune) string
func QuoteRuneToASCII(r rune) string
func QuoteRuneToGraphic(r rune) string
func QuoteToASCII(s string) string
func QuoteToGraphic(s string) string
func QuotedPrefix(s string) (string, error)
func Unquote(s string) (string, error)
func UnquoteChar(s string, quote byte) (value rune, multibyte bool, tail string, err error)`,
	"strings": `func Clone(s string) string
func Compare(a string, b string) int
func Contains(s string, substr string) bool
func ContainsAny(s string, chars string) bool
func ContainsFunc(s string, f func(rune) bool) bool
func ContainsRune(s string, r rune) bool
func Count(s string, substr string) int
func Cut(s string, sep string) (before string, after string, found bool)
func CutLast(s string, sep string) (before string, after string, found bool)
func CutPrefix(s string, prefix string) (after string, found bool)
func CutSuffix(s string, suffix string) (before string, found bool)
func EqualFold(s string, t string) bool
func Fields(s string) []string
func FieldsFunc(s string, f func(rune) bool) []string
func HasPrefix(s string, prefix string) bool
func HasSuffix(s string, suffix string) bool
func Index(s string, substr string) int
func IndexAny(s string, chars string) int
func IndexByte(s string, c byte) int
func IndexFunc(s string, f func(rune) bool) int
func IndexRune(s string, r rune) int
func Join(elems []string, sep string) string
func LastIndex(s string, substr string) int
func LastIndexAny(s string, chars string) int
func LastIndexByte(s string, c byte) int
func LastIndexFunc(s string, f func(rune) bool) int
func Map(mapping func(rune) rune, s string) string
func Repeat(s string, count int) string
func Replace(s string, old string, new string, n int) string
func ReplaceAll(s string, old string, new string) string
func Split(s string, sep string) []string
func SplitAfter(s string, sep string) []string
func SplitAfterN(s string, sep string, n int) []string
func SplitN(s string, sep string, n int) []string
func Title(s string) string
func ToLower(s string) string
func ToTitle(s string) string
func ToUpper(s string) string
func ToValidUTF8(s string, replacement string) string
func Trim(s string, cutset string) string
func TrimFunc(s string, f func(rune) bool) string
func TrimLeft(s string, cutset string) string
func TrimLeftFunc(s string, f func(rune) bool) string
func TrimPrefix(s string, prefix string) string
func TrimRight(s string, cutset string) string
func TrimRightFunc(s string, f func(rune) bool) string
func TrimSpace(s string) string
func TrimSuffix(s string, suffix string) string`,
}
