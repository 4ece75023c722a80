// Common aliases and the assumed contracts of dependencies.
package app "github.com/shutter-network/shutter/shuttermint/app"
package shmsg "github.com/shutter-network/shutter/shuttermint/shmsg"
package common "github.com/ethereum/go-ethereum/common"

pure fmt.Sprint fmt.Errorf fmt.Print fmt.Fprint errors. log. strings. strconv. math. unicode. time. context. encoding/hex. encoding/base64. sync. (*sync. (error). error.
pure github.com/pkg/errors.

package pkgerrors "github.com/pkg/errors"
package fmt "fmt"
package errors "errors"
extern pkgerrors.New(a) returns (e)
  ensures e != nil
extern pkgerrors.Errorf(a, b) returns (e)
  ensures e != nil
extern pkgerrors.WithStack(a) returns (e)
  ensures (a == nil) <==> (e == nil)
extern pkgerrors.Wrap(a) returns (e)
  ensures (a == nil) <==> (e == nil)
extern pkgerrors.Wrapf(a) returns (e)
  ensures (a == nil) <==> (e == nil)
extern fmt.Errorf(a, b) returns (e)
  ensures e != nil
extern errors.New(a) returns (e)
  ensures e != nil
pure github.com/ethereum/go-ethereum/common.Address).Hex github.com/ethereum/go-ethereum/common.Address).String github.com/ethereum/go-ethereum/common.Hash).Hex github.com/ethereum/go-ethereum/common.Hash).String github.com/ethereum/go-ethereum/common.Hash).TerminalString
