import { jsx } from "react";
export default function Plot(props) {
  return jsx("plot", { data: props.data, layout: props.layout, onClick: props.onClick });
}
